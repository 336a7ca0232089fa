"""C05 unwarping of points and lines: the forward model is applied exactly, the
backward model is inverted."""
from vlib import *
from checks.common import *
import discorpy.post.postprocessing as post
import discorpy.util.utility as util

P = Prop("C05")
ASSUMPTIONS = ["backward models are monotone over the points given"]

lines_s = st.one_of(st.lists(st.integers(1, 6), min_size=1, max_size=4),
                    st.lists(st.integers(1, 40), min_size=1, max_size=12))
base = dict(lens=lines_s, seed=seeds, scale=st.sampled_from([1, 50, 800,
                                                            3000]),
            fx=centers, fy=centers, form=st.sampled_from(
                ["float64", "float32", "int", "int16", "list", "tuple"]))


def make_lines(c, radius_budget=True):
    g = rng(c["seed"])
    s = float(c["scale"])
    out = [np.round(g.random((n, 2)) * s, 3) for n in c["lens"]]
    if c["form"] in ("int", "int16"):
        out = [np.round(p) for p in out]
    if c["form"] == "float32":
        out = [np.float64(np.float32(p)) for p in out]
    return out


def as_form(lines, form):
    if form == "float32":
        return [np.float32(p) for p in lines]
    if form == "int":
        return [np.int64(p) for p in lines]
    if form == "int16":
        return [np.int16(p) for p in lines]
    if form == "list":
        return [[list(map(float, r)) for r in p] for p in lines]
    if form == "tuple":
        return tuple(np.asarray(p) for p in lines)
    return lines


def far(lines, xc, yc):
    return max(1.0, max(np.hypot(p[:, 0] - yc, p[:, 1] - xc).max()
                        for p in lines))


def lines_close(got, want, tol, what):
    need(len(got) == len(want), "%s: %d lines returned for %d", what, len(got),
         len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        close(g, w, tol, "%s, line %d" % (what, i))


@P.sub(fixed(rel=rel_terms(0, 5, 0.4), k0=q(0.5, 1.5, 0.05),
             arr=st.booleans(), **base), quick=1500, shards=2,
       rule="the model is not the identity")
def forward_lines_follow_the_model(c, ev):
    lines = make_lines(c)
    xc, yc = c["fx"] * c["scale"], c["fy"] * c["scale"]
    fact = model(c["rel"], far(lines, xc, yc), c["k0"])
    f = np.asarray(fact) if c["arr"] else fact
    got = post.unwarp_line_forward(as_form(lines, c["form"]), xc, yc, f)
    want = [distort(p, xc, yc, fact) for p in lines]
    tol = c["scale"] * (1e-5 if c["form"] == "float32" else 1e-9) + 1e-9
    lines_close(got, want, tol, "forward-unwarped points")
    ev.nontrivial(c["k0"] != 1 or any(c["rel"]))
    ev.label(c["form"])


@P.sub(fixed(rel=mono_terms(0, 4, 0.6), k0=q(0.8, 1.2, 0.05),
             at_center=st.booleans(), **base), quick=500, shards=4,
       rule="the model is not the identity")
def backward_lines_invert_the_model(c, ev):
    """Distort known points with the backward model; unwarping gives them
    back."""
    lines = make_lines(c)
    xc, yc = c["fx"] * c["scale"], c["fy"] * c["scale"]
    if c["at_center"]:
        xc, yc = float(lines[0][0, 1]), float(lines[0][0, 0])
    fact = model(c["rel"], 3.0 * far(lines, xc, yc), c["k0"])
    form = c["form"]
    if form in ("int", "int16", "float32"):
        dis = as_form(lines, form)           # distorted points as given
    else:
        dis = as_form([distort(p, xc, yc, fact) for p in lines], form)
    got = post.unwarp_line_backward(dis, xc, yc, fact)
    need(len(got) == len(lines), "number of lines changed")
    for i, (g, d) in enumerate(zip(got, dis)):
        g = arr(g, np.shape(np.asarray(d)), "unwarped line")
        back = distort(g, xc, yc, fact)
        tol = 2e-3 + 2e-6 * c["scale"] * (form == "float32")
        close(back, np.float64(d), tol, "unwarped points put through the "
              "model again, line %d" % i)
        if form not in ("int", "int16", "float32"):
            close(g, lines[i], 2e-2, "unwarped points, line %d" % i)
    ev.nontrivial(c["k0"] != 1 or any(c["rel"]))
    ev.label(form)
    ev.label("point at the centre", c["at_center"])


places = st.one_of(q(-500, 2000, 0.5), q(-500, 2000, 0.5), 
                   q(-40000, 40000, 0.5))


@P.sub(fixed(y=places, x=places, ints=st.booleans(),
             xc=q(-300, 1500, 0.5), yc=q(-300, 1500, 0.5),
             rel=rel_terms(0, 8, 0.4), k0=q(0.5, 1.5, 0.05),
             form=st.sampled_from(["tuple", "list", "array"]),
             arr=st.booleans()), quick=1000,
       rule="the point is not the centre and x differs from y")
def point_to_point(c, ev):
    y, x = c["y"], c["x"]
    if c["ints"]:
        y, x = int(y), int(x)
    p = {"tuple": (y, x), "list": [y, x], "array": np.asarray([y, x])}[
        c["form"]]
    r = np.hypot(x - c["xc"], y - c["yc"])
    fact = model(c["rel"], max(r, 1.0), c["k0"])
    f = np.asarray(fact) if c["arr"] else fact
    want = distort([[y, x]], c["xc"], c["yc"], fact)[0]
    a = util.find_point_to_point(p, c["xc"], c["yc"], f)
    need(len(a) == 2, "a point must have two coordinates")
    close(a, want[::-1], 1e-8 * (1 + r) + 1e-8, "x, y")
    b = util.find_point_to_point(p, c["xc"], c["yc"], f, output_order="yx")
    close(b, want, 1e-8 * (1 + r) + 1e-8, "y, x")
    a = util.find_point_to_point(p, c["xc"], c["yc"], f, output_order="xy")
    close(a, want[::-1], 1e-8 * (1 + r) + 1e-8, "x, y")
    ev.nontrivial(r > 0 and x != y)


@P.sub(fixed(rel=mono_terms(0, 3, 0.4), h=st.integers(3, 20),
             w=st.integers(3, 20), fx=centers, fy=centers, k0=q(0.9, 1.1,
                                                               0.05)),
       quick=300, rule="non-identity model")
def points_and_images_use_the_same_model(c, ev):
    """The source coordinate of an output pixel (read off ramp images) is the
    point the point-wise function gives."""
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    ys = post.unwarp_image_backward(y, xc, yc, fact)
    xs = post.unwarp_image_backward(x, xc, yc, fact)
    for i in range(h):
        for j in range(w):
            px, py = util.find_point_to_point((i, j), xc, yc, fact)
            need(abs(ys[i, j] - np.clip(py, 0, h - 1)) < 1e-3
                 and abs(xs[i, j] - np.clip(px, 0, w - 1)) < 1e-3,
                 "pixel (%d, %d) is taken from (%s, %s), the point function "
                 "says (%s, %s)", i, j, ys[i, j], xs[i, j], py, px)
    ev.nontrivial(c["k0"] != 1 or any(c["rel"]))
