"""C14 residual metrics measure the distance of points from straight lines."""
from vlib import *
from checks.common import *
import discorpy.post.postprocessing as post

P = Prop("C14")
ASSUMPTIONS = ["lines of at least two distinct points; slope below 60 degrees "
               "from their direction"]
RES = {"hor": post.calc_residual_hor, "ver": post.calc_residual_ver}


def flip(lines):
    return [np.asarray(ln)[:, ::-1] for ln in lines]


def reference(lines, xc, yc, way):
    """Rows (radius, distance) by explicit normal equations."""
    if way == "ver":
        lines, xc, yc = flip(lines), yc, xc
    rows = []
    for ln in lines:
        y, x = np.float64(ln[:, 0]), np.float64(ln[:, 1])
        xm, ym = x.mean(), y.mean()
        a = np.sum((x - xm) * (y - ym)) / np.sum((x - xm) ** 2)
        d = np.abs(a * (x - xm) - (y - ym)) / np.hypot(1.0, a)
        rows += zip(np.hypot(x - xc, y - yc), d)
    return np.array(rows)


def make(c):
    g = rng(c["seed"])
    out = []
    for i, n in enumerate(c["sizes"]):
        x = np.sort(g.choice(400, n, replace=False)) * 5.0 + g.uniform(0, 3, n)
        x = x - 200 if c["neg"] else x
        y = 40.0 * i + c["slope"] * x + g.uniform(-1, 1) * 0.02 * x
        y = y + c["noise"] * g.standard_normal(n) + c["curve"] * 1e-5 * (
            x - 500) ** 2
        ln = np.stack((y, x), -1)
        ln = ln[g.permutation(n)] if c["shuffle"] else ln
        out.append(ln)
    return out


def give(lines, form):
    if form == "list":
        return [ln.tolist() for ln in lines]
    if form == "float32":
        return [np.float32(ln) for ln in lines]
    if form == "int":
        return [np.int64(np.round(ln)) for ln in lines]
    return lines


lp = dict(sizes=st.lists(st.integers(2, 15), min_size=1, max_size=8),
          slope=q(-1.5, 1.5, 0.02), noise=st.sampled_from([0, 0.1, 1.0, 5.0]),
          curve=st.sampled_from([0, 0, 1.0, -3.0]), seed=seeds,
          neg=st.booleans(), shuffle=st.booleans(),
          xc=q(-500, 2500, 0.5), yc=q(-500, 2500, 0.5),
          way=st.sampled_from(["hor", "ver"]))


@P.sub(fixed(form=st.sampled_from(["array", "list", "float32", "int"]), **lp),
       quick=1500, shards=2, rule="points off their lines")
def distances(c, ev):
    lines = make(c)
    if c["way"] == "ver":
        lines = flip(lines)
    given = give(lines, c["form"])
    got = arr(RES[c["way"]](given, c["xc"], c["yc"]),
              (sum(c["sizes"]), 2), "residuals")
    exact = [np.float64(np.asarray(ln)) for ln in given]
    want = reference(exact, c["xc"], c["yc"], c["way"])
    mag = max(float(np.abs(ln).max()) for ln in exact) + abs(c["xc"]) \
        + abs(c["yc"])
    tol = mag * (2e-6 if c["form"] == "float32" else 1e-9) + 1e-7
    need(np.all(np.diff(got[:, 0]) >= -tol), "radii are not in ascending "
         "order")
    need(got[:, 1].min() >= 0, "negative residual")
    # pairs belong together: compare as multisets, matching equal radii
    a = np.float64(got)
    b = want[want[:, 0].argsort(kind="stable")]
    close(a[:, 0], b[:, 0], tol, "distances from the center")
    i = 0
    while i < len(b):
        j = i + 1
        while j < len(b) and b[j, 0] - b[j - 1, 0] <= 4 * tol:
            j += 1
        close(np.sort(a[i:j, 1]), np.sort(b[i:j, 1]), tol * 3,
              "distances from the line at radius %.3f" % b[i, 0])
        i = j
    ev.nontrivial(bool(c["noise"] or c["curve"]))
    ev.label("vertical", c["way"] == "ver")


@P.sub(fixed(nh=st.integers(1, 6), nv=st.integers(3, 9), d=q(5, 80, 0.5),
             tilt=q(-0.7, 0.7, 0.01), off=q(-9, 9, 0.25), i=st.integers(0, 99),
             way=st.sampled_from(["hor", "ver"]), xc=q(-200, 900, 1),
             yc=q(-200, 900, 1)), quick=600, rule="a point was moved")
def known_offset(c, ev):
    """Straight lines have no residual; two mirrored displacements of a point
    give residuals that follow the known least-squares leverage."""
    n = c["nv"]
    t = (np.arange(n) - (n - 1) / 2.0) * c["d"]
    cs, sn = np.cos(c["tilt"]), np.sin(c["tilt"])
    base = [np.stack((sn * t + 300 + 50 * k, cs * t + 300), -1)
            for k in range(c["nh"])]
    if c["way"] == "ver":
        base = flip(base)
    got = RES[c["way"]](base, c["xc"], c["yc"])
    need(np.asarray(got)[:, 1].max() <= 1e-7, "straight lines have a residual "
         "of %g", np.asarray(got)[:, 1].max())
    # move one point along the dependent coordinate of the fit
    k, i = c["i"] % c["nh"], c["i"] % n
    moved = [ln.copy() for ln in base]
    moved[k][i, 0 if c["way"] == "hor" else 1] += c["off"]
    got = np.asarray(RES[c["way"]](moved, c["xc"], c["yc"]))
    lev = 1.0 / n + t[i] ** 2 / np.sum(t ** 2)
    sl = sn / cs + c["off"] * t[i] / (cs * np.sum(t ** 2))
    want = abs(c["off"]) * (1 - lev) / np.hypot(1.0, sl)
    r = float(np.hypot(moved[k][i, 0] - c["yc"], moved[k][i, 1] - c["xc"]))
    at = got[np.abs(got[:, 0] - r) <= 1e-6]
    need(len(at) and np.abs(at[:, 1] - want).min() <= 1e-6, "a point moved by "
         "%g should have the residual %.6f; found %s at its radius %.3f",
         c["off"], want, at[:, 1], r)
    ev.nontrivial(c["off"] != 0)


@P.sub(fixed(ox=q(-1000, 1000, 0.5), oy=q(-1000, 1000, 0.5), **lp), quick=500,
       rule="shifted, and points off their lines")
def frame(c, ev):
    """Shift of everything changes nothing; exchanging x and y exchanges the
    two functions; order of lines and points does not matter."""
    lines = make(c)
    if c["way"] == "ver":
        lines = flip(lines)
    xc, yc = c["xc"], c["yc"]
    f = RES[c["way"]]
    g = RES["ver" if c["way"] == "hor" else "hor"]
    a = sort_rows(np.round(f(lines, xc, yc), 6))
    tol = 2e-6
    o = np.array([c["oy"], c["ox"]])
    b = sort_rows(np.round(f([ln + o for ln in lines], xc + c["ox"],
                             yc + c["oy"]), 6))
    close(b[:, 0], a[:, 0], tol, "radii after a shift")
    close(np.sort(b[:, 1]), np.sort(a[:, 1]), tol, "residuals after a shift")
    b = sort_rows(np.round(g(flip(lines), yc, xc), 6))
    close(b[:, 0], a[:, 0], tol, "radii with x and y exchanged")
    close(np.sort(b[:, 1]), np.sort(a[:, 1]), tol,
          "residuals with x and y exchanged")
    b = sort_rows(np.round(f([ln[::-1] for ln in lines[::-1]], xc, yc), 6))
    close(b[:, 0], a[:, 0], tol, "radii of reversed lines")
    close(np.sort(b[:, 1]), np.sort(a[:, 1]), tol,
          "residuals of reversed lines")
    ev.nontrivial(bool(c["noise"] or c["curve"]) and c["ox"] != 0)


@P.sub(fixed(n=st.one_of(st.integers(1, 200), st.sampled_from([20, 40, 100])),
             part=st.one_of(q(0, 1, 0.01), q(0.1, 0.2, 0.001),
                            st.just(0.15)),
             big=st.sampled_from([1.0001, 1.5, 3.0, 100.0]),
             small=st.sampled_from([0.0, 0.5, 0.9999, 1.0]), seed=seeds),
       quick=1000, rule="share of large residuals within 0.1 and 0.2")
def verdict(c, ev):
    n = c["n"]
    k = min(n, int(round(c["part"] * n)))
    res = np.full(n, c["small"])
    res[:k] = c["big"]
    g = rng(c["seed"])
    res = res[g.permutation(n)]
    data = np.stack((np.sort(g.uniform(0, 3000, n)), res), 1)
    got = post.check_distortion(data)
    need(bool(got) == (100 * k > 15 * n), "verdict %s with %d of %d residuals "
         "of %g, others %g", got, k, n, c["big"], c["small"])
    ev.nontrivial(0.1 < k / n < 0.2)
    ev.label("exactly 15 percent", 100 * k == 15 * n)
