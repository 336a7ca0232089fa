"""C29 inputs untouched, no dependence on history or memory layout."""
import copy
import functools
from vlib import *
from checks.common import *
from checks.dots import *
from checks import patterns
import discorpy.post.postprocessing as post
import discorpy.prep.preprocessing as prep
import discorpy.prep.linepattern as lp
import discorpy.proc.processing as proc
import discorpy.util.utility as util
import discorpy.losa.loadersaver as losa
from checks.files import scratch
try:
    import cv2
except ImportError:
    cv2 = None

P = Prop("C29")
ASSUMPTIONS = ["layout variants agree to 1e-4 of the scale of the result "
               "(sums may be taken in another order); the step-wise searches "
               "find_cod_fine and the sinogram maxima are compared within "
               "their own step",
               "OpenCV functions: contiguous native arrays only"]


class Scene:
    """Inputs for every function, from one seed."""

    def __init__(self, seed):
        g = rng(seed)
        c = dict(nh=int(g.integers(7, 10)), nv=int(g.integers(7, 10)),
                 d=float(g.integers(24, 34)), asp=1.0,
                 fx=0.1 * g.random(), fy=-0.1 * g.random(), mx=1.0, my=1.2,
                 tilt=0.03 * (g.random() - 0.5), e=0.03 + 0.05 * g.random(),
                 w=[0.0, 1.0])
        p, u, self.xc, self.yc, self.fact, _ = radial_grid(c)
        self.hor, self.ver = lines_of(p)
        self.uhor, self.uver = lines_of(u)
        # a mild perspective view of the straight grid
        k = [1, 0.02, 3.0, -0.01, 1, 2.0, 2e-4, 1e-4]
        self.coef = np.float64(k)
        self.phor, self.pver = lines_of(homography(k, u))
        self.d = c["d"]
        h, w = int(g.integers(30, 50)), int(g.integers(30, 50))
        self.mat = image("smooth", h, w, seed, "float32", lo=5.0)
        self.vol = np.stack([image("noise", h, w, seed + i, "float32")
                             for i in range(4)])
        self.col = np.stack([image("smooth", h, w, seed + i, "float32")
                             for i in range(3)], axis=-1)
        self.xm, self.ym = w * 0.45, h * 0.55
        self.fm = [1.0, 0.0, 2e-5]
        gr, dh, dw = grid_in_image(7, 8, 22.0, 0.02, 30.0)
        self.dots_pts = gr.reshape(-1, 2)
        self.dotimg = lit(disc_field(dh, dw, self.dots_pts, 4.5), 180., 30.,
                          0.1, 0.1, 0.0, 0)
        self.bin = np.float32(disc_field(dh, dw, self.dots_pts, 4.5) > 0.5)
        self.dhor, self.dver = lines_of(gr)
        self.pts = self.dots_pts + 0.2 * (g.random(self.dots_pts.shape)
                                          - 0.5)
        s = {"th": 2.0, "tv": -2.0, "ph": 28.0, "pv": 30.0, "sig": 1.5,
             "cx": 20 * g.random(), "cy": 20 * g.random()}
        self.lines = patterns.lines(190, 200, s)
        self.sl = np.tan(np.deg2rad(2.0))
        x = np.arange(140)
        self.prof = 10 - 4 * sum(np.exp(-0.5 * ((x - t) / 2.0) ** 2)
                                 for t in (25, 60.3, 99.6))
        self.resid = np.stack((np.linspace(0, 99, 40),
                               g.random(40) * 1.5), axis=1)


@functools.lru_cache(maxsize=8)
def scene(seed):
    return Scene(seed)


def table(s):
    """name -> (function, args, kwargs)."""
    t = {}

    def add(f, *a, **k):
        n = f.__name__
        i = 2
        while n in t:
            n = "%s#%d" % (f.__name__, i)
            i += 1
        t[n] = (f, a, k)
    fa = s.fact
    add(post.unwarp_line_forward, s.hor, s.xc, s.yc, fa)
    add(post.unwarp_line_backward, s.hor, s.xc, s.yc, fa)
    add(post.unwarp_line_backward, s.ver, s.xc, s.yc, np.float64(fa))
    add(post.unwarp_image_backward, s.mat, s.xm, s.ym, s.fm)
    add(post.unwarp_image_backward, s.mat, s.xm, s.ym, np.float64(s.fm),
        order=3, mode="nearest")
    add(post.unwarp_image_forward, s.mat, s.xm, s.ym, s.fm)
    add(post.unwarp_slice_backward, s.vol, s.xm, s.ym, s.fm, 11)
    add(post.unwarp_chunk_slices_backward, s.vol, s.xm, s.ym, s.fm, 3, 9)
    add(post.calc_residual_hor, s.hor, s.xc, s.yc)
    add(post.calc_residual_ver, s.ver, s.xc, s.yc)
    add(post.check_distortion, s.resid)
    add(post.correct_perspective_line, s.phor, s.coef)
    add(post.correct_perspective_image, s.mat, np.float64(
        [1, 0.01, 0.5, 0.01, 1, 0.2, 1e-4, 1e-4]))
    add(proc.find_cod_coarse, s.hor, s.ver)
    add(proc.find_cod_fine, s.hor, s.ver, s.xc + 1, s.yc - 1, 3.0)
    add(proc.find_cod_bailey, s.hor, s.ver)
    for f in (proc.calc_coef_backward, proc.calc_coef_forward,
              proc.calc_coef_backward_from_forward):
        add(f, s.hor, s.ver, s.xc, s.yc, 3)
        add(f, s.hor, s.ver, s.xc, s.yc, 3, optimizing=True, threshold=0.3)
    add(proc.transform_coef_backward_and_forward, fa, ref_points=np.float64(
        s.hor[0]) - [s.yc, s.xc])
    add(proc.regenerate_grid_points_parabola, s.hor, s.ver)
    add(proc.regenerate_grid_points_linear, s.uhor, s.uver)
    for f in (proc.generate_undistorted_perspective_lines,
              proc.generate_source_target_perspective_points):
        for eq in (True, False):
            add(f, s.phor, s.pver, equal_dist=eq, optimizing=False)
    q4 = np.float64([s.phor[0][0], s.phor[0][-1], s.phor[-1][-1],
                     s.phor[-1][0]])
    add(proc.generate_4_source_target_perspective_points, q4)
    u4 = np.float64([s.uhor[0][0], s.uhor[0][-1], s.uhor[-1][-1],
                     s.uhor[-1][0]])
    add(proc.calc_perspective_coefficients, q4, u4)
    add(proc.update_center, s.hor, s.xc, s.yc)
    add(proc.correct_perspective_effect, s.hor, s.ver, s.xc, s.yc)
    add(proc.find_center_based_vanishing_points, s.phor, s.pver)
    add(prep.normalization, s.dotimg, 15)
    add(prep.normalization_fft, s.dotimg, 5, 30)
    add(prep.binarization, s.dotimg, 0.4)
    add(prep.binarization, s.dotimg, 0.4, 90.0, False)
    add(prep.check_num_dots, s.bin)
    add(prep.calc_size_distance, s.bin, 0.6)
    add(prep.select_dots_based_size, s.bin, 60.0)
    add(prep.select_dots_based_ratio, s.bin)
    add(prep.select_dots_based_distance, s.bin, 22.0)
    add(prep.calc_hor_slope, s.bin, 0.9)
    add(prep.calc_ver_slope, s.bin, 0.9)
    add(prep.group_dots_hor_lines, s.bin, 0.02, 22.0)
    add(prep.group_dots_ver_lines, s.bin, -0.02, 22.0)
    add(prep.group_dots_hor_lines, s.pts, 0.02, 22.0)
    add(prep.group_dots_ver_lines, s.pts, -0.02, 22.0)
    add(prep.group_dots_hor_lines_based_polyfit, s.pts, 0.02, 22.0,
        accepted_ratio=0.5)
    add(prep.group_dots_ver_lines_based_polyfit, s.pts, -0.02, 22.0,
        accepted_ratio=0.5)
    add(prep.remove_residual_dots_hor, s.dhor, 0.02, 1.0)
    add(prep.remove_residual_dots_ver, s.dver, -0.02, 1.0)
    add(prep.calculate_threshold, s.dotimg)
    add(prep.make_parabola_mask, 60, 70, hor_margin=8, ver_margin=9)
    add(prep.remove_points_using_parabola_mask, s.pts, 200, 220,
        hor_margin=30, ver_margin=30)
    add(prep.get_points_dot_pattern, s.dotimg)
    add(prep.get_points_dot_pattern, s.bin, binarize=False)
    add(prep.rotate_points, s.pts, 12.0)
    add(prep.remove_subset_points, s.pts[3:9].copy(), s.pts)
    add(lp.locate_subpixel_point, s.prof[20:30].copy())
    add(lp.get_local_extrema_points, s.prof, norm=False)
    add(lp.get_local_extrema_points, s.prof, option="max", denoise=False)
    add(lp.sliding_window_slope, s.prof)
    add(lp.select_good_peaks, 10 - s.prof, [25, 60, 80, 100])
    add(lp.get_tilted_profile, s.lines, 90, 3.0, "horizontal")
    add(lp.get_tilted_profile, s.lines, 90, 3.0, "vertical")
    add(lp.calc_slope_distance_hor_lines, s.lines, 0.7, 4.0)
    add(lp.calc_slope_distance_ver_lines, s.lines, 0.7, 4.0)
    add(lp.convert_chessboard_to_linepattern, s.lines)
    add(lp.get_cross_points_hor_lines, s.lines, -s.sl, 30.0)
    add(lp.get_cross_points_ver_lines, s.lines, s.sl, 28.0)
    add(util.make_circle_mask, 21, 0.8)
    add(util.make_dot_pattern, 80, 90, 20, 6, 5)
    add(util.make_line_pattern, 80, 90, 20, 3, 5)
    add(util.make_chessboard, 80, 90, 12, 5)
    add(util.find_point_to_point, (10, 20), s.xm, s.ym, s.fm)
    add(util.unwarp_color_image_backward, s.col, s.xm, s.ym, s.fm)
    add(util.unwarp_color_image_backward, s.mat, s.xm, s.ym, s.fm, pad=5)
    if cv2 is not None:
        add(util.unwarp_image_backward_cv2, s.col, s.xm, s.ym, s.fm)
        h, w = s.mat.shape
        y, x = np.mgrid[0:h, 0:w].astype(np.float32)
        add(util.mapping_cv2, s.mat, x + 0.25, y)
    return t


NAMES = sorted(table(scene(0)))
LOOSE = {"find_cod_fine": 3.0, "calc_slope_distance_hor_lines": 0.5,
         "calc_slope_distance_ver_lines": 0.5}


def same(a, b, tol, what, scale=None):
    """Equal structure, values within tol of the scale (exact if tol is 0)."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        need(isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))
             and len(a) == len(b), "%s: results of different length", what)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, tol, "%s[%d]" % (what, i))
        return
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, "%s: shape %s and %s", what, a.shape, b.shape)
    if a.dtype.kind not in "fiubc" or a.size == 0:
        need(np.array_equal(a, b), "%s: %r and %r", what, a, b)
        return
    a, b = np.float64(a), np.float64(b)
    if tol == 0:
        need(np.array_equal(a, b, equal_nan=True), "%s: differs by %g", what,
             np.nanmax(np.abs(a - b)))
    else:
        lim = tol * (1e-12 + np.nanmax(np.abs(a)))
        need(bool(np.all((np.abs(a - b) <= lim) | (np.isnan(a)
                                                   & np.isnan(b)))),
             "%s: differs by %g", what, np.nanmax(np.abs(a - b)))


def freeze(x):
    """Structure and bytes of the inputs."""
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(t) for t in x))
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    return repr(x)


def relay(x, how):
    """The same values in another memory layout."""
    if isinstance(x, np.ndarray):
        if how == "fortran":
            return np.asfortranarray(x)
        if how == "strided":
            big = np.zeros([2 * n for n in x.shape], dtype=x.dtype)
            v = big[tuple(slice(0, None, 2) for _ in x.shape)]
            v[...] = x
            return v
        if how == "reversed":
            return np.ascontiguousarray(x[::-1])[::-1]
        if how == "readonly":
            y = x.copy()
            y.flags.writeable = False
            return y
        if how == "double":
            return x.astype(np.float64)
        return x.copy()
    if isinstance(x, list):
        return [relay(t, how) for t in x]
    if isinstance(x, tuple):
        return tuple(relay(t, how) for t in x)
    return x


def outcome(f, a, k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "err", "%s: %s" % (type(e).__name__, e)


@P.sub(fixed(fn=st.sampled_from(NAMES), seed=st.integers(0, 40)), quick=400,
       shards=8, rule="always",
       examples=[{"fn": n, "seed": i % 7} for i, n in enumerate(NAMES)])
def untouched(c, ev):
    """Inputs are as before the call; the call repeated gives the same."""
    f, a, k = table(scene(c["seed"]))[c["fn"]]
    a, k = copy.deepcopy(a), copy.deepcopy(k)
    before = freeze([a, k])
    st0 = freeze(list(np.random.get_state(legacy=True))[1:3])
    err0, pr0 = np.geterr(), np.get_printoptions()
    r1 = f(*a, **k)
    need(freeze([a, k]) == before, "%s changed its inputs", c["fn"])
    keep = copy.deepcopy(r1)
    r2 = f(*a, **k)
    same(r1, r2, 0, c["fn"] + " called twice")
    same(r1, keep, 0, c["fn"] + ": an earlier result")
    need(np.geterr() == err0 and np.get_printoptions() == pr0
         and freeze(list(np.random.get_state(legacy=True))[1:3]) == st0,
         "%s changed settings of numpy", c["fn"])
    ev.nontrivial()
    ev.label(c["fn"].split("#")[0])


@P.sub(fixed(calls=st.lists(st.tuples(st.sampled_from(NAMES),
                                      st.integers(0, 5)), min_size=2,
                            max_size=6), seed=st.integers(0, 5)), quick=100,
       shards=8, rule="more than two calls")
def history(c, ev):
    """A call gives the same whatever was called in between."""
    n0, s0 = c["calls"][0]
    f, a, k = table(Scene(s0))[n0]
    first = copy.deepcopy(f(*a, **k))
    for n, s in c["calls"][1:]:
        g, b, kk = table(scene(s))[n]
        g(*copy.deepcopy(b), **kk)
    f, a, k = table(Scene(s0))[n0]
    same(f(*a, **k), first, 0, "%s after %s" % (n0, [n for n, _ in
                                                     c["calls"][1:]]))
    ev.nontrivial(len(c["calls"]) > 2)


def pristine(f):
    """The same function from a newly imported discorpy, without history."""
    import importlib
    import sys
    old = {n: m for n, m in sys.modules.items()
           if n == "discorpy" or n.startswith("discorpy.")}
    for n in old:
        del sys.modules[n]
    try:
        m = importlib.import_module(f.__module__)
        return getattr(m, f.__name__)
    finally:
        for n in [n for n in sys.modules
                  if n == "discorpy" or n.startswith("discorpy.")]:
            del sys.modules[n]
        sys.modules.update(old)


def nudge(x, how, g, place):
    """Slightly other values of the same kind and shape."""
    if isinstance(x, (bool, np.bool_)) or x is None or isinstance(x, str):
        return x
    if how == "swap":              # the same numbers in another order
        if isinstance(x, np.ndarray):
            y = x if place else x.copy()
            y[...] = x[::-1].copy()
            return y
        if isinstance(x, list):
            y = copy.deepcopy(x[::-1])
            if place:
                x[:] = y
            return x if place else y
        if isinstance(x, tuple):
            return x[::-1]
        how = "all"
    if isinstance(x, np.ndarray):
        y = x if place else x.copy()
        if y.dtype.kind not in "fiu" or y.size == 0:
            return y
        if how == "all":
            y[...] = x[..., ::-1] if x.ndim > 1 and x.shape[-1] > 3 \
                else x * 1.01
        elif how == "one":
            i = np.unravel_index(int(g.integers(y.size)), y.shape)
            z = y[i]
            y[i] = 1 - z if z in (0, 1) else z * 1.05
        else:
            i = (-1,) * y.ndim
            z = y[i]
            y[i] = 1 - z if z in (0, 1) else z * 1.05
        return y
    if isinstance(x, list):
        if not x:
            return x
        i = {"one": int(g.integers(len(x))), "last": len(x) - 1}.get(how)
        for j in range(len(x)) if place else ():
            if i in (None, j):
                x[j] = nudge(x[j], how, g, place)
        return x if place else [nudge(t, how, g, place) if i in (None, j)
                                else copy.deepcopy(t)
                                for j, t in enumerate(x)]
    if isinstance(x, tuple):
        return tuple(nudge(t, how, g, place) for t in x)
    if isinstance(x, (int, np.integer)):
        return x + 1
    return x * 1.02 + 1e-7


@P.sub(fixed(fn=st.sampled_from(NAMES), seed=st.integers(0, 12),
             how=st.sampled_from(["all", "one", "last", "swap"]),
             place=st.booleans(), s=seeds), quick=160, thorough=3000,
       shards=8, rule="the nudged call has another result",
       examples=[{"fn": n, "seed": i % 5, "how": h, "place": (i + j) % 4 > 1,
                  "s": i} for i, n in enumerate(NAMES)
                 for j, h in enumerate(["all", "last", "swap"])])
def no_memory(c, ev):
    """After a call, a call with one argument slightly other gives what a
    newly imported discorpy gives for it."""
    f, a0, k0 = table(scene(c["seed"]))[c["fn"]]
    g = rng(c["s"])
    todo = range(len(a0) + len(k0))
    if c["fn"] == "find_cod_fine":
        todo = [int(g.integers(len(a0)))]   # slow
    for i in todo:
        a, k = list(copy.deepcopy(a0)), copy.deepcopy(k0)
        r0 = copy.deepcopy(outcome(f, a, k))
        if i < len(a):
            a[i] = nudge(a[i], c["how"], g, c["place"])
        else:
            n = sorted(k)[i - len(a)]
            k[n] = nudge(k[n], c["how"], g, c["place"])
        a1, k1 = copy.deepcopy(a), copy.deepcopy(k)
        got = outcome(f, a, k)
        want = outcome(pristine(f), a1, k1)
        need(got[0] == want[0], "%s: %r, without history %r", c["fn"],
             got if got[0] == "err" else "a result",
             want if want[0] == "err" else "a result")
        same(got[1], want[1], 0, "%s after a call with another argument %d"
             % (c["fn"], i))
        try:
            same(r0[1], got[1], 0, "")
        except Violation:
            ev.nontrivial()
    ev.label(c["fn"].split("#")[0])


@P.sub(fixed(fn=st.sampled_from([n for n in NAMES if "cv2" not in n]),
             seed=st.integers(0, 40),
             how=st.sampled_from(["fortran", "strided", "reversed",
                                  "readonly"])), quick=500, shards=8,
       rule="always")
def layout(c, ev):
    """Fortran order, strides, read-only: the same result."""
    f, a, k = table(scene(c["seed"]))[c["fn"]]
    want = f(*copy.deepcopy(a), **k)
    b = relay(copy.deepcopy(a), c["how"])
    got = f(*b, **k)
    base = c["fn"].split("#")[0]
    if base in LOOSE:
        for x, y in zip(np.ravel(want), np.ravel(got)):
            need(abs(x - y) <= LOOSE[base], "%s: %s and %s with %s inputs",
                 c["fn"], want, got, c["how"])
    else:
        same(got, want, 1e-4, "%s with %s inputs" % (c["fn"], c["how"]))
    ev.nontrivial()
    ev.label(c["how"])


def number(x):
    return isinstance(x, (float, np.floating)) or type(x) is int


def reform(x, how):
    """The same coefficients, lines or points in another container."""
    if isinstance(x, list) and x and all(number(t) for t in x):
        return {"array": np.array(x), "tuple": tuple(x)}.get(how, x)
    if isinstance(x, list) and x and all(
            isinstance(t, np.ndarray) and t.ndim == 2 and t.shape[1] == 2
            for t in x):
        if how == "array" and len({t.shape for t in x}) == 1:
            return np.array(x)
        return {"tuple": tuple(x), "lists": [t.tolist() for t in x]}.get(
            how, x)
    if isinstance(x, np.ndarray) and x.ndim == 2 and x.shape[1] == 2 \
            and how == "lists":
        return x.tolist()
    return x


@P.sub(fixed(fn=st.sampled_from(NAMES), seed=st.integers(0, 40),
             how=st.sampled_from(["array", "tuple", "array", "tuple",
                                  "lists"])), quick=160, shards=8,
       rule="an argument changes its form",
       examples=[{"fn": n, "seed": i % 7, "how": h} for i, n in
                 enumerate(NAMES) for h in ("array", "tuple")])
def containers(c, ev):
    """Coefficients and lines as list, tuple or array: the same result.
    Plain lists of coordinates may be refused, not answered differently."""
    f, a, k = table(scene(c["seed"]))[c["fn"]]
    want = f(*copy.deepcopy(a), **k)
    b = [reform(t, c["how"]) for t in copy.deepcopy(a)]
    if c["how"] == "lists":
        ok, got = outcome(f, b, k)
        if ok == "err":
            return
    else:
        got = f(*b, **k)
    base = c["fn"].split("#")[0]
    if base in LOOSE:
        for x, y in zip(np.ravel(want), np.ravel(got)):
            need(abs(x - y) <= LOOSE[base], "%s: %s and %s, given as %s",
                 c["fn"], want, got, c["how"])
    else:
        same(got, want, 1e-4, "%s, given as %s" % (c["fn"], c["how"]))
    ev.nontrivial(any(type(x) is not type(y) or type(x) is list and x and
                      type(x[0]) is not type(y[0]) for x, y in zip(a, b)))
    ev.label(c["how"])


def picture(kind, c, d):
    """The pixels of one plot, the same for the same case."""
    import os
    from PIL import Image
    g = rng(c["seed"])
    pts = 10 + g.random((6, 2)) * 180
    p = os.path.join(d, "p.png")
    if kind == "lines":
        losa.save_plot_image(p, [pts[:3], pts[3:]], 200, 200)
    elif kind == "points":
        losa.save_plot_points(p, pts, 200, 200)
    else:
        losa.save_residual_plot(p, pts, 300, 300)
    return np.array(Image.open(p).convert("RGBA"))


@P.sub(fixed(kinds=st.lists(st.sampled_from(["lines", "points", "residual"]),
                            min_size=2, max_size=5), seed=seeds,
             width=st.sampled_from([None, 3.5])), quick=24, shards=8,
       rule="different kinds of plots")
def plots_leave_no_trace(c, ev):
    """No open figures, the settings of matplotlib as before, and the same
    picture whatever was plotted before."""
    import matplotlib.pyplot as plt
    with scratch() as d, plt.rc_context():
        if c["width"] is not None:
            plt.rcParams["lines.linewidth"] = c["width"]
            plt.rcParams["font.size"] = 11.0
        first = picture(c["kinds"][0], c, d)
        figs = plt.get_fignums()
        mine = plt.figure()
        for k in c["kinds"][1:]:
            old = {n: plt.rcParams[n] for n in (
                "font.size", "font.weight", "font.family",
                "lines.linewidth", "figure.dpi", "axes.grid",
                "figure.figsize", "savefig.bbox")}
            picture(k, dict(c, seed=c["seed"] + 1), d)
            new = {n: plt.rcParams[n] for n in old}
            need(old == new, "plot %r changed the settings %s to %s", k, old,
                 new)
        need(plt.get_fignums() == figs + [mine.number], "figures open: %s, "
             "before: %s", plt.get_fignums(), figs + [mine.number])
        plt.close(mine)
        again = picture(c["kinds"][0], c, d)
        need(first.shape == again.shape and np.array_equal(first, again),
             "another picture after %s", c["kinds"])
    ev.nontrivial(len(set(c["kinds"])) > 1)
