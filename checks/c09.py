"""C09 calibration does not depend on the coordinate frame."""
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc
import discorpy.post.postprocessing as post

P = Prop("C09")
ASSUMPTIONS = ["differences up to the single-precision fits used inside are "
               "allowed (1e-3 of a line spacing, 3e-4 in factors)"]

signs = st.sampled_from([-1, 1])
frames = st.one_of(
    st.tuples(st.just("shift"), q(-300, 300, 0.5), q(-300, 300, 0.5)),
    st.tuples(st.just("scale"), logq(0.01, 50), st.just(0)),
    st.tuples(st.just("swap"), st.just(0), st.just(0)),
    st.tuples(st.just("mirror_x"), q(500, 3000, 0.5), st.just(0)),
    st.tuples(st.just("mirror_y"), q(500, 3000, 0.5), st.just(0)),
    st.tuples(st.just("reverse"), st.integers(0, 2), st.just(0)),
    st.tuples(st.just("shuffle"), seeds, st.just(0)))
case = dict(e=st.tuples(signs, q(0.01, 0.06, 0.005)).map(
    lambda t: t[0] * t[1]), w=st.sampled_from([[0, 1], [0.3, 0.7], [0, 0.5,
                                                                   0, 0.5]]),
    tilt=st.one_of(st.just(0.0), q(-0.06, 0.06, 0.005)), frame=frames,
    **grid_params)


def change(fr, p):
    """New (nh, nv, 2) array, point map and scale of the frame."""
    kind, a, b = fr
    if kind == "shift":
        return p + [b, a], (lambda x, y: (x + a, y + b)), 1.0
    if kind == "scale":
        return p * a, (lambda x, y: (x * a, y * a)), a
    if kind == "swap":
        return (np.ascontiguousarray(p[..., ::-1].transpose(1, 0, 2)),
                (lambda x, y: (y, x)), 1.0)
    if kind == "mirror_x":
        t = p[:, ::-1].copy()
        t[..., 1] = a - t[..., 1]
        return t, (lambda x, y: (a - x, y)), 1.0
    if kind == "mirror_y":
        t = p[::-1].copy()
        t[..., 0] = a - t[..., 0]
        return t, (lambda x, y: (x, a - y)), 1.0
    if kind == "reverse":      # the lines are listed the other way round
        t = p[::-1] if a != 1 else p
        return (t[:, ::-1] if a else t).copy(), (lambda x, y: (x, y)), 1.0
    return p, (lambda x, y: (x, y)), 1.0


def off_lines(p, xc, yc, d):
    """The centre keeps clear of every grid line and of the middle between
    lines (else rounding decides which line is nearest)."""
    xs = np.array([np.polyfit(ln[:, 0] - yc, ln[:, 1] - xc, 2)[2]
                   for ln in p.transpose(1, 0, 2)])
    ys = np.array([np.polyfit(ln[:, 1] - xc, ln[:, 0] - yc, 2)[2]
                   for ln in p])
    for v in (xs, ys):
        a = np.sort(np.abs(v))
        if a[1] - a[0] < 0.03 * d:
            return False
    r = np.hypot(p[..., 0] - yc, p[..., 1] - xc)
    i, j = np.unravel_index(np.argmin(r), r.shape)
    hy = abs(p[i, :, 0] - yc).min()
    vx = abs(p[:, j, 1] - xc).min()
    return min(hy, vx) > 0.04 * d


@P.sub(fixed(n=st.integers(1, 4), opt=st.booleans(),
             fn=st.sampled_from(["b", "f", "bf"]), **case), quick=600,
       shards=4, rule="center clear of the grid lines")
def coefficients(c, ev):
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    new, pmap, s = change(c["frame"], dis)
    sh = c["frame"][0] == "shuffle"
    h1, v1 = lines_of(dis)
    h2, v2 = lines_of(new, 0, c["frame"][1] if sh else 0, sh)
    x2, y2 = pmap(xc, yc)
    if not off_lines(dis, xc, yc, c["d"]):
        return
    fn = {"b": proc.calc_coef_backward, "f": proc.calc_coef_forward,
          "bf": proc.calc_coef_backward_from_forward}[c["fn"]]
    a = np.atleast_2d(fn(h1, v1, xc, yc, c["n"], optimizing=c["opt"]))
    b = np.atleast_2d(fn(h2, v2, x2, y2, c["n"], optimizing=c["opt"]))
    rr = np.linspace(0, 1, 12) * r
    for i in range(len(a)):
        close(factor(rr * s, b[i]), factor(rr, a[i]), 5e-4,
              "factors in the changed frame")
    ev.nontrivial()
    ev.label(c["frame"][0])


@P.sub(fixed(**case), quick=500, shards=4,
       rule="center clear of the grid lines")
def centers_move_along(c, ev):
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    new, pmap, s = change(c["frame"], dis)
    kind = c["frame"][0]
    sh = kind == "shuffle"
    h1, v1 = lines_of(dis)
    h2, v2 = lines_of(new, 0, c["frame"][1] if sh else 0, sh)
    if not off_lines(dis, xc, yc, c["d"]):
        return
    d = c["d"] * max(1, c["asp"])
    far = max(1.0, abs(pmap(xc, yc)[0]) / s / d, abs(pmap(xc, yc)[1]) / s / d)

    def cmp(fn, tol, what):
        x, y = fn(h1, v1)
        x, y = pmap(float(x), float(y))
        u, v = fn(h2, v2)
        need(abs(u - x) <= tol * s * d and abs(v - y) <= tol * s * d,
             "%s center in the changed frame (%s): found (%.5f, %.5f), "
             "expected (%.5f, %.5f)", what, kind, u, v, x, y)
    tol = 2e-3 * far / abs(c["e"] / 0.06)
    if kind in ("scale", "swap", "shuffle", "reverse"):
        cmp(proc.find_cod_coarse, tol, "coarse")
    if kind in ("scale", "swap", "shuffle", "reverse", "mirror_x",
                "mirror_y"):
        cmp(proc.find_cod_bailey, max(tol, 2e-3 if kind in (
            "scale", "swap", "shuffle") else 2e-2), "Bailey")
    else:
        cmp(proc.find_cod_bailey, max(tol, 2e-2), "Bailey")
    if c["e"] < 0:
        cmp(proc.find_center_based_vanishing_points, 10 * tol,
            "vanishing-point")
    ev.nontrivial()
    ev.label(kind)


@P.sub(fixed(**dict(case, frame=st.one_of(
    st.tuples(st.just("shift"), q(-300, 300, 0.5), q(-300, 300, 0.5)),
    st.tuples(st.just("scale"), logq(0.01, 50), st.just(0)),
    st.tuples(st.just("swap"), st.just(0), st.just(0)),
    st.tuples(st.just("reverse"), st.integers(0, 2), st.just(0)),
    st.tuples(st.just("shuffle"), seeds, st.just(0))))), quick=300, shards=2,
    rule="every case")
def grids_and_targets_move_along(c, ev):
    """Regenerated grid points and residuals."""
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    new, pmap, s = change(c["frame"], dis)
    kind = c["frame"][0]
    sh = kind == "shuffle"
    h1, v1 = lines_of(dis)
    h2, v2 = lines_of(new, 0, c["frame"][1] if sh else 0, sh)
    mag = max(1.0, float(np.abs(new).max()), float(np.abs(dis).max()) * s)
    a, _ = proc.regenerate_grid_points_linear(h1, v1)
    b, _ = proc.regenerate_grid_points_linear(h2, v2)
    a2 = change(c["frame"], np.float64(a))[0]
    close(b, a2, 2e-6 * mag + 1e-5, "regenerated grid points")
    x2, y2 = pmap(xc, yc)
    ra = post.calc_residual_hor(h1, xc, yc)
    f2, l2 = (post.calc_residual_ver, v2) if kind == "swap" else (
        post.calc_residual_hor, h2)
    rb = f2(l2, x2, y2)
    close(np.sort(rb[:, 0]), np.sort(ra[:, 0]) * s, 1e-7 * mag, "radii of "
          "the residuals")
    close(np.sort(rb[:, 1]), np.sort(ra[:, 1]) * s, 1e-7 * mag, "residuals")
    ev.nontrivial()
    ev.label(kind)


@P.sub(fixed(k=st.integers(-9, 9).filter(lambda v: v != 0), n=st.integers(1, 3),
             **{a: b for a, b in case.items() if a != "frame"}), quick=300,
       shards=2, rule="units at least four times larger or smaller")
def units_do_not_matter(c, ev):
    """Scaling by a power of two is exact in floating point, so only a
    dependence on absolute sizes can change the results."""
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    s = 2.0 ** c["k"]
    h1, v1 = lines_of(dis)
    h2, v2 = lines_of(dis * s)
    d = c["d"] * max(1, c["asp"])
    fns = [("coarse", proc.find_cod_coarse), ("Bailey", proc.find_cod_bailey),
           ("Bailey, 5 iterations",
            lambda h, v: proc.find_cod_bailey(h, v, iteration=5))]
    if c["e"] < 0:
        fns.append(("vanishing-point",
                    proc.find_center_based_vanishing_points))
        fns.append(("iterative vanishing-point",
                    proc.find_center_based_vanishing_points_iteration))
    for name, fn in fns:
        a = np.float64(fn(h1, v1))
        b = np.float64(fn(h2, v2)) / s
        if not (np.hypot(*(a - [xc, yc])) < d):
            continue
        close(b, a, 1e-3 * d, "%s center in units of 2^%d" % (name, -c["k"]))
    rr = np.linspace(0, 1, 12) * r
    for name, fn in (("backward", proc.calc_coef_backward),
                     ("forward", proc.calc_coef_forward)):
        a, b = fn(h1, v1, xc, yc, c["n"]), fn(h2, v2, xc * s, yc * s, c["n"])
        close(factor(rr * s, b), factor(rr, a), 5e-4, "%s factors in units of "
              "2^%d" % (name, -c["k"]))
    g1, _ = proc.regenerate_grid_points_parabola(h1, v1)
    g2, _ = proc.regenerate_grid_points_parabola(h2, v2)
    close(np.float64(g2) / s, g1, 1e-3 * d, "grid points from parabolas")
    ev.nontrivial(abs(c["k"]) > 1)
