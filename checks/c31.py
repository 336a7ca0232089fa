"""C31 requests beyond a documented limit are refused; just inside, answered."""
import os
from vlib import *
from checks.common import *
from checks.files import *
import discorpy.post.postprocessing as post
import discorpy.prep.preprocessing as prep
import discorpy.prep.linepattern as lp
import discorpy.proc.processing as proc
import discorpy.util.utility as util
import discorpy.losa.loadersaver as losa
import h5py
from PIL import Image

P = Prop("C31")
ASSUMPTIONS = ["the limits are the ones the documentation or the error "
               "messages of the library name; ValueError includes its "
               "subclasses, missing files may also be OSError"]
side = st.sampled_from(["in", "in", "out", "out", "out"])


def judge(c, ev, ok, f, *a, exc=ValueError, **k):
    """The call is answered (returned here) or refused."""
    ev.nontrivial(not ok)
    ev.label("refused" if not ok else "answered")
    if ok:
        return f(*a, **k)
    raises(exc, f, *a, **k)
    return None


@P.sub(fixed(h=st.integers(2, 30), w=st.integers(2, 30), d=st.integers(1, 3),
             i=st.integers(0, 400), j=st.integers(0, 400),
             ndim=st.sampled_from([3] * 9 + [1, 2]),
             which=st.sampled_from(["slice", "chunk"])), quick=600,
       rule="the request is outside the data")
def slices(c, ev):
    """Rows exist or not; data is 3D or not."""
    h, w = c["h"], c["w"]
    i, j = c["i"] % (h + 6) - 3, c["j"] % (h + 8) - 5
    vol = np.arange(c["d"] * h * w, dtype=np.float32).reshape(c["d"], h, w)
    if c["ndim"] < 3:
        vol = vol[(0,) * (3 - c["ndim"])]
    ok = c["ndim"] == 3 and 0 <= i < h
    arg = (0.4 * w, 0.6 * h, [1.0, 0.0, 0.0])
    if c["which"] == "slice":
        r = judge(c, ev, ok, post.unwarp_slice_backward, vol, *arg, i)
        if ok:
            close(r, vol[:, i, :], 0.02 * w, "slice %d" % i)
        return
    last = h - 1 if j == -1 else j
    if ok and 0 <= last < i:
        return        # empty or reversed range: nothing is documented
    ok = ok and 0 <= last < h
    r = judge(c, ev, ok, post.unwarp_chunk_slices_backward, vol, *arg, i, j)
    if ok:
        r = arr(r, (c["d"], last - i + 1, w), "chunk")
        close(r, vol[:, i:last + 1, :], 0.02 * w, "rows %d to %d" % (i, last))


@P.sub(fixed(n=st.integers(0, 11), img=st.booleans(),
             kind=st.sampled_from(["list", "tuple", "array"])), quick=150,
       rule="not eight coefficients")
def eight_coefficients(c, ev):
    """Perspective correction takes exactly eight coefficients."""
    k = [1.0, 0, 0, 0, 1.0, 0, 0, 0, 0, 0, 0][:c["n"]]
    k = {"list": list, "tuple": tuple, "array": np.array}[c["kind"]](k)
    m = image("smooth", 12, 14, 3, "float32")
    x = [np.float64([[1, 2], [3, 4.5]])]
    if c["img"]:
        r = judge(c, ev, c["n"] == 8, post.correct_perspective_image, m, k)
        if r is not None:
            close(r, m, 1e-2, "identity")
    else:
        r = judge(c, ev, c["n"] == 8, post.correct_perspective_line, x, k)
        if r is not None:
            close(r[0], x[0], 1e-6, "identity")


@P.sub(fixed(n=st.integers(0, 8), order=st.sampled_from(["xy", "yx"]),
             eq=st.booleans()), quick=100, rule="not four points")
def four_points(c, ev):
    """Perspective targets from a quadrilateral: exactly four points."""
    p = [[0.0, 1], [1.0, 60], [52.0, 3], [50.0, 55], [10, 10], [20, 20],
         [30, 10], [1, 9]][:c["n"]]
    r = judge(c, ev, c["n"] == 4,
              proc.generate_4_source_target_perspective_points, p,
              input_order=c["order"], equal_dist=c["eq"],
              exc=(ValueError, IndexError))
    if r is not None:
        arr(r[0], (4, 2), "source points")
        arr(r[1], (4, 2), "target points")


@P.sub(fixed(nco=st.integers(1, 6), n=st.integers(0, 9),
             mapping=st.sampled_from(["forward", "backward"])), quick=200,
       rule="fewer reference points than coefficients")
def enough_reference_points(c, ev):
    """Inverting a model needs as many points as coefficients."""
    p = [[3.0 * i + 1, 2.0 * i + 1] for i in range(c["n"])]
    r = judge(c, ev, c["n"] >= c["nco"],
              proc.transform_coef_backward_and_forward,
              [1.0] + [0.0] * (c["nco"] - 1), mapping=c["mapping"],
              ref_points=p)
    if r is not None:
        arr(r, (c["nco"],), "coefficients")


@P.sub(fixed(n=st.integers(1, 6), size=st.integers(0, 9),
             norm=st.booleans()), quick=100, rule="fewer than 3 samples")
def slope_needs_three(c, ev):
    """Sliding slopes need three samples."""
    r = judge(c, ev, c["n"] >= 3, lp.sliding_window_slope,
              np.arange(c["n"]) ** 2.0, size=c["size"], norm=c["norm"])
    if r is not None:
        arr(r, (c["n"],), "slopes")


@P.sub(fixed(h=st.integers(12, 60), w=st.integers(12, 60),
             deg=q(-60, 60, 0.5), off=st.integers(-3, 3),
             far=st.sampled_from([0, 0, 0, 5, 40]),
             top=st.booleans(), ndim=st.sampled_from([2, 2, 2, 2, 1, 3]),
             d=st.sampled_from(["horizontal", "vertical"])), quick=600,
       shards=2, rule="the line leaves the image")
def tilted_lines_inside(c, ev):
    """A profile exists for lines inside the image; 90 degrees never."""
    h, w, deg, d = c["h"], c["w"], c["deg"], c["d"]
    m = image("smooth", h, w, 1, "float32")
    if c["ndim"] != 2:
        judge(c, ev, False, lp.get_tilted_profile,
              m[0] if c["ndim"] == 1 else np.stack([m, m]), 5, 0.0, d)
        return
    n, run = (h, w) if d == "horizontal" else (w, h)
    drop = (run - 1) * abs(np.tan(np.deg2rad(deg)))
    up = (deg > 0) == (d == "horizontal")     # the far end moves to index 0
    lo, hi = (drop, n - 1) if up else (0, n - 1 - drop)
    i = int(round((lo if c["top"] else hi)
                  + c["off"] + (c["far"] if c["off"] > 0 else -c["far"])))
    # one pixel (and its slope) around the limit is the library's business
    slack = 1.001 + abs(np.tan(np.deg2rad(deg)))
    a, b = (i, i - drop) if up else (i, i + drop)
    inside = min(a, b) >= slack and max(a, b) <= n - 1 - slack
    outside = min(a, b) < -slack or max(a, b) > n - 1 + slack
    if lo > hi - 2 * slack and not outside:
        return
    if not inside and not outside:
        return
    r = judge(c, ev, inside, lp.get_tilted_profile, m, i, deg, d)
    if r is not None:
        need(len(r) == 3 and len(r[0]) == len(r[1]) == len(r[2]),
             "profile of unequal lengths")
    judge(c, ev, False, lp.get_tilted_profile, m, n // 2,
          90.0 if c["top"] else -90.0, d)


@P.sub(fixed(h=st.integers(4, 50), w=st.integers(4, 50), a=q(0, 1, 0.02),
             dh=st.integers(-4, 4), dv=st.integers(-4, 4),
             pair=st.booleans(), pts=st.booleans()), quick=300,
       rule="margins larger than the image")
def mask_margins(c, ev):
    """Margins up to the size of the image."""
    h, w = c["h"], c["w"]
    if c["pair"]:
        sw, sh = max(0, w + c["dh"]), max(0, h + c["dv"])
        l, t = int(c["a"] * sw), int(c["a"] * sh)
        hm, vm = (l, sw - l), [t, sh - t]
    else:
        hm, vm = max(0, w // 2 + c["dh"]), max(0, h // 2 + c["dv"])
        sw, sh = 2 * hm, 2 * vm
    ok = sw <= w and sh <= h
    if c["pts"]:
        r = judge(c, ev, ok, prep.remove_points_using_parabola_mask,
                  np.float64([[h / 2, w / 2], [1, 1]]), h, w, 0.0, 0.0,
                  hor_margin=hm, ver_margin=vm)
    else:
        r = judge(c, ev, ok, prep.make_parabola_mask, h, w, 0.0, 0.0,
                  hor_margin=hm, ver_margin=vm)
        if r is not None:
            arr(r, (h, w), "mask")


@P.sub(fixed(n=st.sampled_from([0, 0, 9, 16]), f=st.sampled_from(
    ["group_dots_hor_lines", "group_dots_ver_lines",
     "group_dots_hor_lines_based_polyfit",
     "group_dots_ver_lines_based_polyfit"]), kind=st.sampled_from(
         ["list", "array"]), slope=q(-0.05, 0.05, 0.01)), quick=150,
       rule="no points")
def nothing_to_group(c, ev):
    """Grouping nothing is refused."""
    k = int(round(c["n"] ** 0.5))
    p = [[10.0 * i, 10.0 * j] for i in range(k) for j in range(k)]
    if c["kind"] == "array":
        p = np.float64(p).reshape(-1, 2)
    f = getattr(prep, c["f"])
    kw = {"accepted_ratio": 0.5} if "polyfit" in c["f"] else {}
    if c["n"] and c["kind"] == "list":
        p = np.float64(p)         # documented as arrays
    r = judge(c, ev, c["n"] > 0, f, p, c["slope"] * 0, 10.0, **kw)
    if r is not None:
        need(len(r) == k and all(len(x) == k for x in r),
             "%d lines from a %d x %d grid", len(r), k, k)


@P.sub(fixed(lo=st.sampled_from([0.0, 0.0, 0.25, 0.5, 1.0, -1.0]),
             hi=st.sampled_from([1.0, 1.0, 0.5, 2.0, 255.0, 0.0]),
             dtype=st.sampled_from(["float32", "float64"]), seed=seeds),
       quick=150, rule="not a 0/1 image")
def binary_images(c, ev):
    """Points of an image said to be binary: only 0 and 1."""
    g = rng(c["seed"])
    m = np.full((30, 32), c["lo"], c["dtype"])
    y, x = int(g.integers(3, 24)), int(g.integers(3, 24))
    m[y:y + 4, x:x + 3] = c["hi"]
    ok = {c["lo"], c["hi"]} == {0.0, 1.0}
    r = judge(c, ev, ok, prep.get_points_dot_pattern, m, binarize=False)
    if r is not None and c["hi"] == 1.0:
        close(arr(r, (1, 2), "points"), [[y + 1.5, x + 1.0]], 1e-6, "point")


@P.sub(fixed(way=st.sampled_from(["hor", "ver"]), nl=st.integers(1, 4),
             n=st.integers(8, 14), amp=q(0.5, 3, 0.1), ok=st.booleans()),
       quick=150, rule="all dots beyond the residual")
def no_dots_left(c, ev):
    """If every dot is removed the call is refused."""
    i = np.arange(c["n"])
    w = np.where((i % 2) == 0, 1.0, -1.0) * c["amp"]
    ls = [np.stack((20.0 * k + w, 10.0 * i), axis=1) for k in range(c["nl"])]
    if c["way"] == "ver":
        ls = [x[:, ::-1].copy() for x in ls]
    e = []
    ax = 0 if c["way"] == "hor" else 1
    for x in ls:
        p = np.polyfit(x[:, 1 - ax], x[:, ax], 2)
        e.append(np.abs(np.polyval(p, x[:, 1 - ax]) - x[:, ax]))
    e = np.concatenate(e)
    f = prep.remove_residual_dots_hor if ax == 0 \
        else prep.remove_residual_dots_ver
    r = judge(c, ev, c["ok"], f, ls, 0.0,
              1.01 * e.max() if c["ok"] else 0.99 * e.min())
    if r is not None:
        need(sum(len(x) for x in r) == c["nl"] * c["n"], "dots were lost")


@P.sub(fixed(nh=st.integers(0, 5), nv=st.integers(0, 5),
             bend=st.lists(st.sampled_from([-1, 1]), min_size=10,
                           max_size=10)), quick=300,
       rule="a needed line is missing")
def both_curvatures_needed(c, ev):
    """Perspective from curved lines needs both bends, both ways."""
    t = np.linspace(-100, 100, 15)
    bh, bv = c["bend"][:c["nh"]], c["bend"][5:5 + c["nv"]]

    def bundle(bend):
        # lines on the positive side bend one way, as in a real grid
        out = []
        for k, b in enumerate(bend):
            out.append((20.0 * (k + 1) * b + 1e-3 * b * t ** 2, t))
        return out
    hor = [np.stack((y, x), axis=1) for y, x in bundle(bh)]
    ver = [np.stack((y, x), axis=1) for x, y in bundle(bv)]
    ok = set(bh) == {-1, 1} and set(bv) == {-1, 1}
    r = judge(c, ev, ok, proc.correct_perspective_effect, hor, ver, 0.0, 0.0,
              exc=(ValueError, IndexError))
    if r is not None:
        need(len(r[0]) == len(hor) and len(r[1]) == len(ver),
             "lines were lost")


@P.sub(fixed(size=st.integers(1, 12), d=st.integers(1, 14)), quick=150,
       rule="dots larger than their distance")
def dots_that_fit(c, ev):
    """A dot pattern has dots no larger than their distance."""
    r = judge(c, ev, c["d"] >= c["size"], util.make_dot_pattern, 120, 130,
              c["d"], c["size"], 4)
    if r is not None:
        arr(r, (120, 130), "pattern")


bad_pad = st.one_of(st.lists(st.integers(0, 4), max_size=3),
                    st.lists(st.integers(0, 4), min_size=5, max_size=7),
                    st.sampled_from(["3", "True", 2.5, None]))
good_pad = st.one_of(st.booleans(), st.integers(0, 6),
                     st.lists(st.integers(0, 6), min_size=4, max_size=4))


@P.sub(fixed(bad=st.booleans(), p=bad_pad, g=good_pad, tup=st.booleans(),
             col=st.booleans(), cv=st.booleans()), quick=250,
       rule="not one of the documented pad formats")
def pad_formats(c, ev):
    """Pads: bool, int or four ints."""
    m = image("smooth", 14, 17, 3, "float32")
    if c["col"]:
        m = np.stack([m, m, m], axis=2)
    p = c["p"] if c["bad"] else c["g"]
    if c["tup"] and isinstance(p, list):
        p = tuple(p)
    f = util.unwarp_image_backward_cv2 if c["cv"] \
        else util.unwarp_color_image_backward
    r = judge(c, ev, not c["bad"], f, m, 8.0, 7.0, [1.0, 0.0], pad=p)
    if r is not None:
        t, b, l, s = (0,) * 4 if isinstance(p, bool) else (
            (p,) * 4 if isinstance(p, int) else p)
        arr(r, (14 + t + b, 17 + l + s) + m.shape[2:], "padded image")


@P.sub(fixed(f=st.sampled_from(["image", "hdf", "object", "info", "txt",
                                "json", "list", "find", "key"]),
             fate=st.sampled_from(["there", "missing", "folder", "garbage"]),
             seed=seeds), quick=300, shards=2, rule="no readable file there")
def files_that_exist(c, ev):
    """Reading what is not there is refused; what is there is read."""
    g = rng(c["seed"])
    with scratch() as d:
        ext = {"image": ".tif", "hdf": ".hdf", "object": ".hdf",
               "info": ".hdf", "txt": ".txt", "json": ".json",
               "list": ".pkl", "find": ".dat", "key": ".hdf"}[c["f"]]
        p = os.path.join(d, "a" + ext)
        m = np.float32(g.random((4, 5)))
        if c["fate"] == "there":
            if c["f"] == "image":
                Image.fromarray(m).save(p)
            elif ext == ".hdf":
                with h5py.File(p, "w") as f:
                    f["entry/data"] = m
            elif c["f"] == "txt":
                losa.save_metadata_txt(p, 1.5, 2.5, [1.0, 0.5])
            elif c["f"] == "json":
                losa.save_metadata_json(p, 1.5, 2.5, [1.0, 0.5])
            elif c["f"] == "list":
                losa.save_python_list(p, [1, "b"])
            else:
                open(p, "w").close()
        elif c["fate"] == "garbage":
            with open(p, "wb") as f:
                f.write(b"\x01\x80garbage" + bytes(g.integers(
                    128, 255, 40).astype(np.uint8)))
        elif c["fate"] == "folder":
            os.mkdir(p)
        call = {"image": losa.load_image, "info": losa.get_hdf_information,
                "hdf": lambda x: losa.load_hdf_file(x, "entry/data"),
                "object": lambda x: losa.load_hdf_object(x, "entry/data"),
                "txt": losa.load_metadata_txt, "find": losa.find_file,
                "json": losa.load_metadata_json,
                "list": losa.load_python_list,
                "key": lambda x: losa.find_hdf_key(x, "data")}[c["f"]]
        if c["f"] == "find" and c["fate"] in ("garbage", "folder"):
            return
        r = judge(c, ev, c["fate"] == "there", call, p, exc=Exception)
        if r is not None:
            if c["f"] in ("image", "hdf", "object"):
                close(np.float64(r), m, 1e-6, "data")
            elif c["f"] in ("txt", "json"):
                need((r[0], r[1], list(r[2])) == (1.5, 2.5, [1.0, 0.5]),
                     "metadata %r", r)
            elif c["f"] == "list":
                need(r == [1, "b"], "list %r", r)
        need(c["fate"] != "missing" or not os.listdir(d),
             "reading created files")


@P.sub(fixed(ndim=st.integers(1, 4), key=st.sampled_from(
    ["entry/data", "entry/none", "entry", "data", "entry/data/x"]),
             axis=st.integers(0, 2), i=st.integers(-8, 9),
             how=st.sampled_from(["all", "int", "range", "step", "empty"])),
       quick=300, rule="no such key, index or a dataset of other dimensions")
def keys_and_indices(c, ev):
    """HDF: keys, dimensions and indices that exist."""
    shp = (5, 4, 6, 3)[:c["ndim"]]
    a = np.arange(np.prod(shp), dtype=np.float32).reshape(shp)
    with scratch() as d:
        p = os.path.join(d, "a.hdf")
        with h5py.File(p, "w") as f:
            f["entry/data"] = a
        ok = c["key"] == "entry/data" and c["ndim"] in (2, 3)
        ax, i, idx, want = c["axis"], c["i"], None, a
        if c["ndim"] == 3 and c["how"] != "all":
            n = shp[ax]
            if c["how"] == "int":
                idx = i
                if -n <= i < 0:
                    return              # from the end: h5py's business
                ok = ok and 0 <= i < n
                want = np.take(a, i, axis=ax) if ok else None
            elif c["how"] == "empty":
                idx = (abs(i), abs(i))
                ok = False
            else:
                lo, stp = abs(i) // 2, 1 + abs(i) % 2
                hi = lo + 1 + abs(i) % 3
                idx = (lo, hi) if c["how"] == "range" else (lo, hi, stp)
                lst = list(range(lo, hi, 1 if c["how"] == "range" else stp))
                ok = ok and lst[-1] < n
                want = np.take(a, lst, axis=ax) if ok else None
                if ok and len(lst) == 1:
                    want = np.squeeze(want, axis=ax)
        r = judge(c, ev, ok, losa.load_hdf_file, p, c["key"], idx, ax,
                  exc=Exception)
        if r is not None:
            close(arr(np.float64(r), want.shape, "data"), want, 0, "data")
