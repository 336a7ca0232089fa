"""C07 centre of distortion."""
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc

P = Prop("C07")
ASSUMPTIONS = ["grids start within three spacings of the origin of "
               "coordinates, as in an image", "the centre lies in the middle "
               "40 percent of the grid",
               "error bounds for general radial models were calibrated on the "
               "methods (coarse < 1 spacing, others < 0.6 spacing)"]

signs = st.sampled_from([-1, 1])
para = dict(k=st.tuples(signs, q(0.02, 0.15, 0.005)), on_line=st.booleans(),
            drop=st.integers(0, 2), shuffle=st.booleans(), seed=seeds,
            **grid_params)
weights = st.sampled_from([[0, 1], [0, 1], [0.3, 0.7], [1], [0, 0, 1],
                           [0, 0.5, 0, 0.5], [0.3, 0.3, 0.4]])
radial = dict(e=st.tuples(signs, q(0.01, 0.12, 0.005)).map(
    lambda t: t[0] * t[1]), w=weights, tilt=q(-0.1, 0.1, 0.005),
    on_line=st.booleans(), shuffle=st.booleans(), seed=seeds, **grid_params)


def para_case(c):
    dy, dx, x0, y0, xc, yc, fx, fy = place(c)
    big = max(c["nh"] * dy, c["nv"] * dx)
    k = c["k"][0] * c["k"][1] / big ** 2
    p = parabolic_grid(c["nh"], c["nv"], dy, dx, xc, yc, fx, fy, k)
    hor, ver = lines_of(p, c["drop"], c["seed"], c["shuffle"])
    return hor, ver, xc, yc, dy, dx, k


def at(got, xc, yc, lim, what):
    need(len(got) == 2, "%s must be a pair", what)
    x, y = [float(v) for v in got]
    e = float(np.hypot(x - xc, y - yc))
    need(np.isfinite(e) and e <= lim, "%s: found (x, y) = (%.4f, %.4f), true "
         "center (%.4f, %.4f), off by %.4g px (limit %.4g)", what, x, y, xc,
         yc, e, lim)


def within(got, xc, yc, dx, dy, what):
    x, y = [float(v) for v in got]
    need(abs(x - xc) <= dx and abs(y - yc) <= dy, "%s: found (x, y) = (%.4f, "
         "%.4f), true center (%.4f, %.4f), line spacing x %.3f y %.3f", what,
         x, y, xc, yc, dx, dy)


@P.sub(fixed(**para), quick=400, shards=4, rule="center between the lines")
def parabolic_grids_exact(c, ev):
    hor, ver, xc, yc, dy, dx, k = para_case(c)
    d = max(dy, dx)
    within(proc.find_cod_coarse(hor, ver), xc, yc, 1.02 * dx, 1.02 * dy,
           "coarse center")
    at(proc.find_cod_bailey(hor, ver), xc, yc, 2e-4 * d, "Bailey center")
    for it in (0, 1, 4):
        at(proc.find_cod_bailey(hor, ver, iteration=it), xc, yc, 2e-4 * d,
           "Bailey center, %d iterations" % it)
    if k < 0:
        at(proc.find_center_based_vanishing_points(hor, ver), xc, yc,
           2e-3 * d, "vanishing-point center")
    if not c["drop"]:
        at(proc.find_center_based_vanishing_points_iteration(hor, ver), xc,
           yc, 2e-3 * d, "iterative vanishing-point center")
    ev.nontrivial(not c["on_line"])
    ev.label("barrel" if k < 0 else "pincushion")
    ev.label("center on a line", c["on_line"])
    ev.label("missing points", c["drop"] > 0)


@P.sub(fixed(off=st.tuples(st.integers(-7, 7), st.integers(-7, 7)),
             pd=st.sampled_from([4.0, 4.0, 4.0, 6.0]),
             **dict(para, nh=st.integers(6, 9), nv=st.integers(6, 9),
                    d=q(12, 100, 0.25),
                    k=st.tuples(signs, q(0.04, 0.15, 0.005)))),
       quick=96, thorough=800, shards=8,
       rule="the start is off the true center")
def parabolic_grids_fine_search(c, ev):
    """The true center is one of the searched positions: it must win."""
    hor, ver, xc, yc, dy, dx, k = para_case(c)
    got = proc.find_cod_fine(hor, ver, xc + 0.5 * c["off"][0],
                             yc + 0.5 * c["off"][1], c["pd"])
    at(got, xc, yc, 0.51, "fine center")
    ev.nontrivial(c["off"] != [0, 0])


@P.sub(fixed(**radial), quick=600, shards=4,
       rule="distortion of at least 2 percent, several terms or tilted")
def radial_grids(c, ev):
    p, _, xc, yc, fact, r = radial_grid(c)
    hor, ver = lines_of(p, 0, c["seed"], c["shuffle"])
    d = c["d"] * max(1.0, c["asp"])
    at(proc.find_cod_coarse(hor, ver), xc, yc, 1.15 * d, "coarse center")
    even = c["w"] == [0, 1]
    lim = 0.2 * d if even else 0.75 * d
    at(proc.find_cod_bailey(hor, ver), xc, yc, lim, "Bailey center")
    if c["e"] < 0:
        at(proc.find_center_based_vanishing_points(hor, ver), xc, yc, lim,
           "vanishing-point center")
    lim = 0.2 * d if even else 1.2 * d
    at(proc.find_center_based_vanishing_points_iteration(hor, ver), xc, yc,
       lim, "iterative vanishing-point center")
    ev.nontrivial(abs(c["e"]) >= 0.02 and (len(c["w"]) > 2 or c["tilt"] != 0))
    ev.label("barrel" if c["e"] < 0 else "pincushion")
    ev.label("quadratic model", even)
    ev.label("center on a line", c["on_line"])


@P.sub(fixed(tol=st.just(0), **dict(radial, nh=st.integers(8, 11),
                                    nv=st.integers(8, 11), d=q(8, 20, 0.5),
                                    e=st.tuples(signs, q(0.05, 0.12, 0.005))
                                    .map(lambda t: t[0] * t[1]),
                                    tilt=q(-0.03, 0.03, 0.005),
                                    w=st.sampled_from([[0, 1]]))),
       quick=32, thorough=400, shards=8, rule="tilted or off-line center")
def radial_grids_fine_search(c, ev):
    """Documented use: search around the coarse estimate over one spacing."""
    p, _, xc, yc, fact, r = radial_grid(c)
    hor, ver = lines_of(p, 0, c["seed"], c["shuffle"])
    d = c["d"] * max(1.0, c["asp"])
    x0, y0 = proc.find_cod_coarse(hor, ver)
    got = proc.find_cod_fine(hor, ver, x0, y0, d)
    at(got, xc, yc, 0.75 + 0.15 * d, "fine center")
    ev.nontrivial(c["tilt"] != 0 or not c["on_line"])


@P.sub(fixed(fx=q(3, 30, 0.5), fy=q(3, 30, 0.5), n=st.integers(6, 16),
             m=st.integers(6, 16), d=q(10, 60, 1), cx=q(-0.5, 0.5, 0.05),
             cy=q(-0.5, 0.5, 0.05), e=st.tuples(signs, q(0.005, 0.04, 0.005))
             .map(lambda t: t[0] * t[1]), tilt=q(-0.24, 0.24, 0.01)),
       quick=300, shards=2, rule="tilt of 0.1 or more")
def coarse_far_from_the_origin(c, ev):
    """A grid in the far corner of a large image, tilted."""
    n, m, d = c["n"], c["m"], c["d"]
    x = (np.arange(m) - (m - 1) / 2 + c["cx"]) * d
    y = (np.arange(n) - (n - 1) / 2 + c["cy"]) * d
    xc, yc = (c["fx"] + m / 2) * d, (c["fy"] + n / 2) * d
    px, py = np.meshgrid(x, y)
    t = np.tan(c["tilt"])
    ux, uy = px - t * py, py + t * px
    r = np.hypot(ux, uy)
    f = 1 + c["e"] * (r / r.max()) ** 2
    p = np.stack((yc + f * uy, xc + f * ux), -1)
    hor, ver = lines_of(p)
    far = max(xc, yc) / (0.5 * d * min(n, m))
    lim = d * (1.02 + 0.25 * abs(c["e"]) * far ** 2)
    gx, gy = proc.find_cod_coarse(hor, ver)
    within((gx, gy), xc, yc, lim, lim, "coarse center")
    ev.nontrivial(abs(c["tilt"]) >= 0.1)
