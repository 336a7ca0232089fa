"""C12 regenerated grid points are the crossings of the fitted lines."""
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc

P = Prop("C12")
ASSUMPTIONS = ["mild curvature: the parabolas of a horizontal and a vertical "
               "line cross once near the grid",
               "fit coefficients are held in single precision"]


def both_ways(res, nh, nv, what):
    """Check the pair of listings and return the (nh, nv, 2) grid."""
    need(isinstance(res, (tuple, list)) and len(res) == 2,
         "%s: expected two sets of lines", what)
    hor = np.float64(arr(res[0], (nh, nv, 2), what + ", horizontal lines"))
    ver = np.float64(arr(res[1], (nv, nh, 2), what + ", vertical lines"))
    close(ver, hor.transpose(1, 0, 2), 1e-6 * (1 + np.abs(hor).max()),
          what + ": vertical against horizontal listing")
    return hor


def crossings(hor, ver, deg, g):
    """Crossings of independent double-precision fits (fixed point of
    y = fh(x), x = fv(y), started from the points g)."""
    def fits(lines, axis):
        out = []
        for ln in lines:
            t, v = np.float64(ln[:, axis]), np.float64(ln[:, 1 - axis])
            m, w = t.mean(), max(np.ptp(t), 1e-9)
            sol = np.linalg.lstsq(np.vander((t - m) / w, deg + 1), v,
                                  rcond=None)[0]
            out.append(np.concatenate((sol, [m, w])))
        return np.array(out).T

    def value(f, z):
        u = (z - f[-2]) / f[-1]
        out = np.zeros_like(u)
        for k in range(deg + 1):
            out = out * u + f[k]
        return out
    fh, fv = fits(hor, 1)[:, :, None], fits(ver, 0)[:, None, :]
    y, x = np.float64(g[..., 0]), np.float64(g[..., 1])
    for _ in range(60):
        y, x = value(fh, x), value(fv, y)
    return np.stack((y, x), -1)


def noisy(g, amp, seed):
    return g + amp * rng(seed).uniform(-1, 1, g.shape) if amp else g


common = dict(nh=st.integers(2, 14), nv=st.integers(2, 14), d=q(5, 120, 0.25),
              asp=st.sampled_from([1.0, 0.8, 1.25, 1.0]),
              mx=q(-3, 12, 0.1), my=q(-3, 12, 0.1), tilt=q(-0.3, 0.3, 0.01),
              p=q(-0.15, 0.15, 0.01), r=q(-0.15, 0.15, 0.01),
              noise=st.sampled_from([0.0, 0.0, 0.02, 0.05, 0.1]),
              drop=st.integers(0, 3), shuffle=st.booleans(), seed=seeds)


def straight(c):
    dy, dx = c["d"], c["d"] * c["asp"]
    x0 = ((c["nv"] - 1) / 2.0 + c["mx"]) * dx
    y0 = ((c["nh"] - 1) / 2.0 + c["my"]) * dy
    hor, _ = grid(c["nh"], c["nv"], dy, dx, 0.0, 0.0, c["tilt"])
    g = np.asarray(hor)
    size = max(c["nh"] * dy, c["nv"] * dx)
    g = homography([1, 0, 0, 0, 1, 0, c["p"] / size, c["r"] / size], g)
    return g + [y0, x0]


def tolerance(g):
    """Single-precision slope and intercept at x = 0 or y = 0."""
    mag = float(np.abs(g).max()) + 1
    return 4e-6 * mag


@P.sub(fixed(**common), quick=1200, shards=2,
       rule="tilted, perspective, noisy or incomplete lines")
def linear(c, ev):
    g = straight(c)
    n = noisy(g, c["noise"] * c["d"], c["seed"])
    hor, ver = lines_of(n, c["drop"], c["seed"], c["shuffle"])
    got = both_ways(proc.regenerate_grid_points_linear(hor, ver), c["nh"],
                    c["nv"], "linear")
    tol = tolerance(g)
    if not c["noise"]:
        close(got, g, tol, "crossings of straight lines")
    want = crossings(hor, ver, 1, g)
    close(got, want, tol * 1.5, "crossings of the fitted lines")
    ev.nontrivial(bool(c["tilt"] or c["noise"] or c["drop"] or c["p"]))
    ev.label("noisy", bool(c["noise"]))


@P.sub(fixed(a=st.lists(q(-0.4, 0.4, 0.01), min_size=1, max_size=6),
             b=st.lists(q(-0.4, 0.4, 0.01), min_size=1, max_size=6),
             ia=st.lists(q(-500, 3000, 0.5), min_size=6, max_size=6),
             ib=st.lists(q(-500, 3000, 0.5), min_size=6, max_size=6),
             form=st.sampled_from(["array", "list", "tuple", "float32"])),
       quick=500, rule="at least two lines one way")
def coefficients(c, ev):
    """is_coef: any set of lines given as (slope, intercept)."""
    ch = np.array([[m, k] for m, k in zip(c["a"], c["ia"])])
    cv = np.array([[m, k] for m, k in zip(c["b"], c["ib"])])
    give = {"array": lambda t: t, "list": lambda t: t.tolist(),
            "tuple": lambda t: tuple(map(tuple, t.tolist())),
            "float32": np.float32}[c["form"]]
    got = both_ways(proc.regenerate_grid_points_linear(
        give(ch), give(cv), is_coef=True), len(ch), len(cv), "coefficients")
    y, x = got[..., 0], got[..., 1]
    tol = 4e-6 * (float(np.abs(got).max()) + 3000)
    close(y, ch[:, :1] * x + ch[:, 1:], tol, "points on the horizontal lines")
    close(x, cv[:, 0] * y + cv[:, 1], tol, "points on the vertical lines")
    ev.nontrivial(len(ch) > 1 or len(cv) > 1)


para = dict(common, nh=st.integers(4, 12), nv=st.integers(4, 12),
            k=q(-0.12, 0.12, 0.005), fx=q(-0.2, 0.2, 0.01),
            fy=q(-0.2, 0.2, 0.01), find=st.booleans())
for _k in ("tilt", "p", "r"):
    para.pop(_k)


@P.sub(fixed(**para), quick=400, shards=3,
       rule="curved, noisy or incomplete lines",
       examples=[{"nh": 4, "nv": 4, "d": 5.0, "asp": 1.0, "mx": 6.0,
                  "my": 6.9, "noise": 0.0, "drop": 0, "shuffle": False,
                  "seed": 0, "k": -0.12, "fx": -0.2, "fy": -0.2,
                  "find": False}])
def parabola(c, ev):
    dy, dx = c["d"], c["d"] * c["asp"]
    size = max(c["nh"] * dy, c["nv"] * dx) / 2.0
    xc = ((c["nv"] - 1) / 2.0 + abs(c["mx"])) * dx
    yc = ((c["nh"] - 1) / 2.0 + abs(c["my"])) * dy
    g = parabolic_grid(c["nh"], c["nv"], dy, dx, xc, yc, c["fx"], c["fy"],
                       c["k"] / size ** 2)
    noise = min(c["noise"], 0.03)
    n = noisy(g, noise * c["d"], c["seed"])
    hor, ver = lines_of(n, c["drop"], c["seed"], c["shuffle"])
    got = both_ways(proc.regenerate_grid_points_parabola(
        hor, ver, find_center=c["find"]), c["nh"], c["nv"], "parabola")
    mag = float(np.abs(g).max()) + 1
    tol = 8e-6 * mag * max(1.0, 0.2 * mag / size)
    if not noise:
        close(got, g, tol, "crossings of parabolic lines")
    want = crossings(hor, ver, 2, g)
    close(got, want, tol * 1.5, "crossings of the fitted parabolas")
    ev.nontrivial(bool(c["k"] or noise or c["drop"]))
    ev.label("center found", c["find"])
    ev.label("barrel", c["k"] < 0)


@P.sub(fixed(nh=st.integers(5, 12), nv=st.integers(5, 12), d=q(5, 120, 0.25),
             asp=st.sampled_from([1.0, 1.0, 0.8, 1.25, 0.9]),
             mx=q(0.5, 8, 0.1), my=q(0.5, 8, 0.1),
             k=st.one_of(q(-0.12, -0.02, 0.005), q(0.02, 0.12, 0.005)),
             fx=q(-0.12, 0.12, 0.01), fy=q(-0.12, 0.12, 0.01)), quick=200,
       shards=2, rule="spacings differ")
def parabola_with_perspective(c, ev):
    """Without perspective the option only equalizes the two spacings, about
    the center."""
    dy, dx = c["d"], c["d"] * c["asp"]
    size = max(c["nh"] * dy, c["nv"] * dx) / 2.0
    xc = ((c["nv"] - 1) / 2.0 + c["mx"]) * dx
    yc = ((c["nh"] - 1) / 2.0 + c["my"]) * dy
    k = c["k"] / size ** 2
    hor, ver = lines_of(parabolic_grid(c["nh"], c["nv"], dy, dx, xc, yc,
                                       c["fx"], c["fy"], k))
    got = both_ways(proc.regenerate_grid_points_parabola(
        hor, ver, perspective=True), c["nh"], c["nv"], "parabola/perspective")
    d = max(dx, dy)
    want = parabolic_grid(c["nh"], c["nv"], d, d, xc, yc, c["fx"], c["fy"], k)
    close(got, want, 2e-4 * size + 8e-6 * (np.abs(want).max() + 1),
          "crossings, spacings made equal")
    ev.nontrivial(c["asp"] != 1.0)


@P.sub(fixed(sizes=st.lists(st.integers(1, 7), min_size=0, max_size=6),
             xc=q(-3000, 3000, 0.25), yc=q(-3000, 3000, 0.25), seed=seeds,
             form=st.sampled_from(["array", "list", "int", "float32"])),
       quick=600, rule="at least one point, x and y offset differ")
def update_center(c, ev):
    g = rng(c["seed"])
    base = [np.round(g.uniform(-2000, 4000, (n, 2)) * 4) / 4
            for n in c["sizes"]]
    if c["form"] == "int":
        base = [np.int64(b) for b in base]
    lines = [b.tolist() if c["form"] == "list" else
             np.float32(b) if c["form"] == "float32" else b for b in base]
    got = proc.update_center(lines, c["xc"], c["yc"])
    need(len(got) == len(base), "%d lines became %d", len(base), len(got))
    for a, b in zip(got, base):
        close(a, np.float64(b) + [c["yc"], c["xc"]], 1e-3
              if c["form"] == "float32" else 1e-9, "moved points")
    back = proc.update_center(got, -c["xc"], -c["yc"])
    for a, b in zip(back, base):
        close(a, b, 2e-3, "points moved back")
    ev.nontrivial(len(base) > 0 and c["xc"] != c["yc"])
