"""C08 coefficients of the radial model from grid lines."""
import warnings
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc

P = Prop("C08")
ASSUMPTIONS = ["evenly spaced grids with at least 5 lines each way, tilt below "
               "0.1 rad, center in the middle 40 percent of the grid",
               "residual bounds for general radial models calibrated at about "
               "twice the error of the method"]

signs = st.sampled_from([-1, 1])
weights = st.sampled_from([[0, 1], [0, 1], [0.3, 0.7], [1],
                           [0, 0.5, 0, 0.5], [0.3, 0.3, 0.4]])
radial = dict(e=st.tuples(signs, q(0.01, 0.06, 0.005)).map(
    lambda t: t[0] * t[1]), w=weights, tilt=st.one_of(
        st.just(0.0), q(-0.06, 0.06, 0.005)),
    on_line=st.booleans(), shuffle=st.booleans(), seed=seeds,
    n=st.integers(3, 5), opt=st.booleans(), **grid_params)


def check_len(f, n, what):
    f = arr(f, (n,), what)
    return np.float64(f)


def effect(kind, fact, dis, ideal, xc, yc):
    """Unwarp the distorted points with the coefficients (own inversion) and
    compare with the ideal grid up to one scale: (scale, largest error)."""
    r = np.hypot(dis[..., 0] - yc, dis[..., 1] - xc)
    if kind == "forward":
        u = distort(dis, xc, yc, fact)
    else:
        ru = invert_radius(r, fact, 1.15 * r.max() + 1)
        s = np.where(r > 0, ru / np.maximum(r, 1e-12), 1)
        u = np.stack((yc + s * (dis[..., 0] - yc), xc + s * (dis[..., 1]
                                                            - xc)), -1)
    a, b = ideal - [yc, xc], u - [yc, xc]
    s = float((a * b).sum() / (a * a).sum())
    return s, float(np.abs(b / s - a).max()), u / 1.0


@P.sub(fixed(**radial), quick=600, shards=4,
       rule="distortion of at least 2 percent, or tilted")
def known_model_is_recovered(c, ev):
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    hor, ver = lines_of(dis, 0, c["seed"], c["shuffle"])
    amp = float(np.abs(dis - ideal).max())
    lim = (0.13 if c["w"] == [0, 1] else 0.3) * amp + 2e-4 * r / 10
    n, kw = c["n"], dict(optimizing=c["opt"])
    slim = 0.8 * abs(c["e"]) + 1e-3

    def judge(kind, f, what):
        s, res, u = effect(kind, f, dis, ideal, xc, yc)
        need(abs(s - 1) <= slim, "%s: overall scale is off by %.4f (limit "
             "%.4f)", what, s - 1, slim)
        need(res <= lim, "%s: corrected points are off the ideal grid by "
             "%.4g px, distortion was %.4g px (limit %.4g)", what, res, amp,
             lim)
        for ln in list(u) + list(u.transpose(1, 0, 2)):
            e = straightness(ln)
            need(e <= lim, "%s: a corrected line is %.4g px off straight, "
                 "limit %.4g", what, e, lim)

    b = check_len(proc.calc_coef_backward(hor, ver, xc, yc, n, **kw), n,
                  "backward coefficients")
    judge("backward", b, "backward model")
    f = check_len(proc.calc_coef_forward(hor, ver, xc, yc, n, **kw), n,
                  "forward coefficients")
    judge("forward", f, "forward model")
    f2, b2 = proc.calc_coef_backward_from_forward(hor, ver, xc, yc, n, **kw)
    f2 = check_len(f2, n, "forward coefficients (2)")
    b2 = check_len(b2, n, "backward-from-forward coefficients")
    rr = np.linspace(0, 1, 20) * np.hypot(dis[..., 0] - yc,
                                          dis[..., 1] - xc).max()
    close(factor(rr, f2), factor(rr, f), 1e-6, "forward factors of the "
          "combined method")
    judge("backward", b2, "backward-from-forward model")
    # forward then backward comes home, as well as a polynomial can
    ru = rr * factor(rr, f2)
    close(ru * factor(ru, b2), rr, 0.15 * amp + 2e-3, "radius after forward "
          "and backward model")
    rd = np.hypot(dis[..., 0] - yc, dis[..., 1] - xc).ravel()
    pu = rd * factor(rd, f2)
    m = (pu[:, None] / rd.max()) ** np.arange(n)
    best = np.linalg.lstsq(m, 1 / factor(rd, f2), rcond=None)[0]
    best = best / rd.max() ** np.arange(n)
    close(factor(ru, b2), factor(ru, best), 1e-5, "backward factors against "
          "the least-squares inverse of the forward model")
    ev.nontrivial(abs(c["e"]) >= 0.02 or c["tilt"] != 0)
    ev.label("center on a line", c["on_line"])
    ev.label("tilted", c["tilt"] != 0)
    ev.label("optimizing", c["opt"])


@P.sub(fixed(k=st.tuples(signs, q(0.02, 0.15, 0.005)), n=st.integers(1, 5),
             on_line=st.booleans(), seed=seeds, jitter=st.booleans(),
             f32=st.booleans(), **grid_params), quick=500, shards=4,
       rule="several coefficients")
def least_squares_on_parabolic_grids(c, ev):
    """Lines that are exact parabolas about the center: the factor of every
    point is known, so the least-squares polynomial is too. With unevenly
    spaced lines, optimizing uses the least-squares spacing."""
    dy, dx, x0, y0, xc, yc, fx, fy = place(c)
    big = max(c["nh"] * dy, c["nv"] * dx)
    k = c["k"][0] * c["k"][1] / big ** 2
    cy = (np.arange(c["nh"]) - (c["nh"] - 1) / 2.0 - fy * (c["nh"] - 1))
    cx = (np.arange(c["nv"]) - (c["nv"] - 1) / 2.0 - fx * (c["nv"] - 1))
    cy, cx = cy * dy, cx * dx
    if c["jitter"]:
        if c["on_line"]:
            return
        g = rng(c["seed"])
        cy = cy + dy * 0.08 * (g.random(c["nh"]) - 0.5)
        cx = cx + dx * 0.08 * (g.random(c["nv"]) - 0.5)
        if min(np.abs(cy).min() / dy, np.abs(cx).min() / dx) < 0.05 or \
                min(np.diff(np.sort(np.abs(cy))[:2])[0] / dy,
                    np.diff(np.sort(np.abs(cx))[:2])[0] / dx) < 0.02:
            return
    a0, b0 = np.meshgrid(cx, cy)
    x, y = a0.copy(), b0.copy()
    for _ in range(200):
        x, y = a0 * (1 + k * y * y), b0 * (1 + k * x * x)

    def spaced(v):
        pos = int(np.argmin(np.abs(v)))
        i = np.arange(len(v)) - pos
        d = float(np.dot(i, v - v[pos]) / np.dot(i, i))
        return v[pos] + i * d
    if c["jitter"]:
        uy, ux = spaced(cy), spaced(cx)
    else:
        uy, ux = cy, cx
    # lines (nearly) through the centre say nothing about the factor and are
    # left out; how near is the library's choice, so not judged in between
    for v, d in ((uy, dy), (ux, dx)):
        if np.any((np.abs(v) > 1e-6 * d) & (np.abs(v) < 0.25 * d)):
            return
    use_y = np.abs(uy) > 1e-6 * dy
    use_x = np.abs(ux) > 1e-6 * dx
    p = np.stack((y + yc, x + xc), -1)
    if c["f32"]:
        p = np.float64(np.float32(p))
    hor, ver = lines_of(np.float32(p) if c["f32"] else p)
    r = np.hypot(x, y)
    # factor of every point, as seen along its horizontal / vertical line
    fh = (1 + k * x * x)[use_y] * (cy[use_y] / uy[use_y])[:, None]
    fv = ((1 + k * y * y)[:, use_x] * (cx[use_x] / ux[use_x])[None, :])
    fb = np.concatenate((fh.ravel(), fv.ravel()))
    rr = np.concatenate((r[use_y].ravel(), r[:, use_x].ravel()))
    n = c["n"]
    scale = r.max()

    def lsq(rad, val):
        m = (rad[:, None] / scale) ** np.arange(n)
        return np.linalg.lstsq(m, val, rcond=None)[0] / scale ** np.arange(n)
    want_b, want_f = lsq(rr / fb, fb), lsq(rr, 1 / fb)
    t = np.linspace(0, 1, 15) * scale
    near = min(np.abs(uy[use_y]).min(), np.abs(ux[use_x]).min())
    # rounding of single-precision intercepts matters for lines near the centre
    tol = 3e-5 + 2e-5 * (big / max(near, 1e-9)) * (1e-3 + (
        0.2 * (xc + yc) / big if c["f32"] else 0))
    if tol > 5e-3:
        return
    opts = [True] if c["jitter"] else [True, False]
    for opt in opts:
        got = check_len(proc.calc_coef_backward(hor, ver, xc, yc, n,
                                                optimizing=opt), n, "backward")
        close(factor(t, got), factor(t, want_b), tol, "backward factor over "
              "the radius (optimizing=%s)" % opt)
        got = check_len(proc.calc_coef_forward(hor, ver, xc, yc, n,
                                               optimizing=opt), n, "forward")
        close(factor(t, got), factor(t, want_f), tol, "forward factor over "
              "the radius (optimizing=%s)" % opt)
    ev.nontrivial(n > 1)
    ev.label("uneven spacing", c["jitter"])
    ev.label("center on a line", c["on_line"])
    ev.label("single precision", c["f32"])


@P.sub(fixed(tilt=st.one_of(st.just(0.0), q(-0.1, 0.1, 0.005)),
             on_line=st.booleans(), n=st.integers(1, 5), opt=st.booleans(),
             seed=seeds, **grid_params), quick=300, shards=2,
       rule="tilted or off-line center")
def straight_grid_gives_the_identity(c, ev):
    dy, dx, x0, y0, xc, yc, fx, fy = place(c)
    hor, ver = grid(c["nh"], c["nv"], dy, dx, x0, y0, c["tilt"])
    p = np.asarray(hor)
    hor, ver = lines_of(p)
    t = np.linspace(0, 1, 15) * np.hypot(p[..., 0] - yc, p[..., 1] - xc).max()
    n, kw = c["n"], dict(optimizing=c["opt"])
    tol = 2e-4
    got = check_len(proc.calc_coef_backward(hor, ver, xc, yc, n, **kw), n, "b")
    close(factor(t, got), np.ones(15), tol, "backward factor of a straight "
          "grid")
    got = check_len(proc.calc_coef_forward(hor, ver, xc, yc, n, **kw), n, "f")
    close(factor(t, got), np.ones(15), tol, "forward factor of a straight "
          "grid")
    f, b = proc.calc_coef_backward_from_forward(hor, ver, xc, yc, n, **kw)
    close(factor(t, check_len(f, n, "f2")), np.ones(15), tol, "forward factor")
    close(factor(t, check_len(b, n, "b2")), np.ones(15), tol, "backward "
          "factor")
    ev.nontrivial(c["tilt"] != 0 or not c["on_line"])


@P.sub(fixed(which=st.sampled_from(["hor", "ver", "none"]),
             frac=q(0.3, 0.7, 0.05), thres=st.sampled_from([0.2, 0.3, 0.4, 5.0, 1e-9]),
             fn=st.sampled_from(["b", "f", "bf"]),
             **dict(radial, nh=st.integers(8, 14), nv=st.integers(8, 14),
                    on_line=st.just(False))),
       quick=200, rule="a line is missing")
def missing_line_is_reported(c, ev):
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    hor, ver = lines_of(dis)
    if c["which"] == "hor":
        i = int(c["frac"] * len(hor))
        hor = hor[:i] + hor[i + 1:]
        ver = [np.delete(v, i, axis=0) for v in ver]
    elif c["which"] == "ver":
        i = int(c["frac"] * len(ver))
        ver = ver[:i] + ver[i + 1:]
        hor = [np.delete(h, i, axis=0) for h in hor]
    fn = {"b": proc.calc_coef_backward, "f": proc.calc_coef_forward,
          "bf": proc.calc_coef_backward_from_forward}[c["fn"]]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        fn(hor, ver, xc, yc, 3, threshold=c["thres"])
    warned = any(issubclass(x.category, UserWarning) for x in w)
    if c["thres"] < 1:
        want = c["which"] != "none" or c["thres"] < 0.01
    else:
        want = False                         # such a gap is allowed
    need(warned == want, "missing line: %s, threshold %g, warned: %s",
         c["which"], c["thres"], warned)
    ev.nontrivial(c["which"] != "none")


@P.sub(fixed(near=q(0, 0.3, 0.005), nearx=q(0, 0.3, 0.005),
             noise=q(0.01, 0.06, 0.01), **dict(
                 radial, nh=st.integers(9, 14), nv=st.integers(9, 14),
                 d=q(20, 60, 0.5), on_line=st.just(True))),
       quick=300, shards=2, rule="a line passes within a tenth of the pitch")
def noise_near_the_centre_does_no_harm(c, ev):
    """Noise of the points is not blown up (100 times at most), also when a
    line passes near the centre."""
    dy, dx, x0, y0, xc, yc, fx, fy = place(c)
    c = dict(c, on_line=False, fx=fx + c["nearx"] / (c["nv"] - 1),
             fy=fy + c["near"] / (c["nh"] - 1))
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    g = rng(c["seed"])
    noisy = dis + c["noise"] * np.clip(g.standard_normal(dis.shape), -3, 3)
    hor, ver = lines_of(noisy, 0, c["seed"], c["shuffle"])
    amp = float(np.abs(dis - ideal).max())
    lim = (0.13 if c["w"] == [0, 1] else 0.3) * amp + 2e-4 * r / 10 \
        + 100 * c["noise"]
    for kind, fn in (("backward", proc.calc_coef_backward),
                     ("forward", proc.calc_coef_forward)):
        f = check_len(fn(hor, ver, xc, yc, c["n"], optimizing=c["opt"]),
                      c["n"], kind)
        s, res, u = effect(kind, f, dis, ideal, xc, yc)
        need(res <= lim, "%s model: corrected points are off the ideal grid "
             "by %.4g px, noise was %.4g px (limit %.4g)", kind, res,
             c["noise"], lim)
    ev.nontrivial(min(c["near"], c["nearx"]) <= 0.1)
    ev.label("very near", min(c["near"], c["nearx"]) <= 0.02)


@P.sub(fixed(k=st.integers(0, 9), npint=st.booleans(), **radial), quick=100, rule="more than five coefficients")
def as_many_coefficients_as_asked(c, ev):
    """Any number of coefficients; at least one."""
    dis, ideal, xc, yc, fact, r = radial_grid(c)
    hor, ver = lines_of(dis)
    n = np.int64(c["k"]) if c["npint"] else c["k"]
    want = max(1, c["k"])
    b = check_len(proc.calc_coef_backward(hor, ver, xc, yc, n,
                                          optimizing=c["opt"]), want,
                  "backward coefficients")
    f = check_len(proc.calc_coef_forward(hor, ver, xc, yc, n,
                                         optimizing=c["opt"]), want,
                  "forward coefficients")
    f2, b2 = proc.calc_coef_backward_from_forward(hor, ver, xc, yc, n,
                                                  optimizing=c["opt"])
    f2, b2 = (check_len(t, want, "coefficients of the combined method")
              for t in (f2, b2))
    ev.nontrivial(c["k"] > 5)
