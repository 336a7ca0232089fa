"""C28 histories of saves: a model of the directory."""
import os
import pickle
import pathlib
import h5py
from PIL import Image
from vlib import *
from checks.common import *
from checks.files import scratch, listing
import discorpy.losa.loadersaver as losa

P = Prop("C28")
ASSUMPTIONS = ["up to a dozen saves in one scratch directory; names with the "
               "extension of the format, or without one"]

STEMS = ["a", "b", "a_0000", "a_0001", "s/a", "s/t/b", "x y", "q.r/a"]
EXT = {"image": [".tif", ".png", ".TIFF", ".bmp"],
       "txt": [".txt", ".dat", "", ".TXT", ".Dat"],
       "json": [".json", "", ".JSON"], "list": [".pkl", "", ".PKL"],
       "hdf": [".hdf", ".h5", ".nxs", "", ".HDF", ".hdf5"],
       "stream": [".hdf", ".h5", ".nxs", "", ".H5", ".hdf5"],
       "plot": [".png", ""], "points": [".png", ""], "residual": [".png", ""]}
DEFAULT = {"txt": ".txt", "json": ".json", "list": ".pkl", "hdf": ".hdf",
           "stream": ".hdf", "plot": ".png", "points": ".png",
           "residual": ".png"}


def op(kinds):
    return fixed(kind=st.sampled_from(kinds), stem=st.sampled_from(STEMS),
                 ext=st.integers(0, 5), ow=st.booleans(),
                 v=st.integers(0, 250), as_path=st.booleans(),
                 big=st.sampled_from([False, False, True]))


def save(o, path):
    """Performs the save; returns (returned path, function that tells whether
    a file holds what was saved)."""
    v, n = o["v"], (7 if o["big"] else 3)
    kw = {"overwrite": o["ow"]}
    arg = pathlib.Path(path) if o["as_path"] else path
    k = o["kind"]
    if k == "image":
        m = (np.arange(n * 5).reshape(n, 5) + v).astype(np.uint8)
        r = losa.save_image(arg, m, **kw)
        return r, lambda p: np.array_equal(np.array(Image.open(p)), m)
    if k in ("txt", "json"):
        f = [1.0 + v, 0.5 * v] + [1e-9 * v] * n
        s, ld = (losa.save_metadata_txt, losa.load_metadata_txt) \
            if k == "txt" else (losa.save_metadata_json,
                                losa.load_metadata_json)
        r = s(arg, v, v + 0.25, f, **kw)
        return r, lambda p: ld(p) == (float(v), v + 0.25, f)
    if k == "list":
        t = [v, "x" * n, [v, None]]
        r = losa.save_python_list(arg, t, **kw)

        def same(p):
            with open(p, "rb") as h:
                return pickle.load(h) == t
        return r, same
    if k in ("hdf", "stream"):
        a = np.full((n, 3, 2), float(v))

        def same(p):
            with h5py.File(p, "r") as h:
                return np.array_equal(h[key][...], a)
        key = "other/place/data" if v % 3 == 0 else "entry/data"
        if k == "hdf":
            if v % 3 == 0:
                kw["key_path"] = "other/place"
            return losa.save_hdf_file(arg, a, **kw), same
        if v % 3 == 0:
            kw["key_path"] = key
        s = losa.open_hdf_stream(arg, a.shape, **kw)
        s[...] = a
        r = s.file.filename
        s.file.close()
        return r, same
    pts = np.float64([[20 + v % 60, 30], [50, 20 + v % 70]])
    if k == "plot":
        r = losa.save_plot_image(arg, [pts], 100, 120, **kw)
    elif k == "points":
        r = losa.save_plot_points(arg, pts, 100, 120, **kw)
    else:
        r = losa.save_residual_plot(arg, pts, 200, 220, **kw)
    return r, lambda p: span(np.array(Image.open(p))) > 0


def history(c, ev):
    with scratch() as d:
        for i, name in enumerate(c["before"]):
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(b"old file %d" % i)
        files = listing(d)
        collided = 0
        for i, o in enumerate(c["ops"]):
            exts = EXT[o["kind"]]
            ext = exts[o["ext"] % len(exts)]
            name = o["stem"] + ext
            path = os.path.join(d, name)
            target = name if ext else name + DEFAULT[o["kind"]]
            was = target in files
            collided += was
            r, same = save(o, path)
            now = listing(d)
            what = "save %d (%s to %s, overwrite=%s)" % (i, o["kind"], name,
                                                         o["ow"])
            gone = [f for f in files if f not in now]
            need(not gone, "%s removed %s", what, gone)
            new = [f for f in now if f not in files]
            diff = [f for f in files if now[f] != files[f]]
            rr = os.path.relpath(os.path.realpath(r), d)
            need(rr in now, "%s returned %s, which is not a file", what, rr)
            if o["ow"] or not was:
                need(rr == target, "%s wrote %s instead of %s", what, rr,
                     target)
            if o["ow"]:
                need(not [f for f in diff if f != target], "%s changed %s",
                     what, diff)
                need(not [f for f in new if f != target], "%s made %s", what,
                     new)
            else:
                need(not diff, "%s changed the existing %s", what, diff)
                need(new == [rr], "%s made %s and returned %s", what, new, rr)
                need(os.path.dirname(rr) == os.path.dirname(target)
                     and os.path.splitext(rr)[1] == os.path.splitext(
                         target)[1], "%s wrote %s", what, rr)
                need(os.path.basename(rr).startswith(os.path.splitext(
                    os.path.basename(target))[0]), "%s wrote %s", what, rr)
            need(same(os.path.join(d, rr)), "%s: the file does not hold what "
                 "was saved", what)
            files = now
        ev.nontrivial(collided > 0)
        ev.label("three or more collisions", collided > 2)


PRE = st.lists(st.sampled_from(
    ["a.tif", "a_0000.tif", "a_0001.tif", "b.txt", "a.json", "a_0000.json",
     "s/a.pkl", "a.hdf", "a_0000.hdf", "a.png", "a_0000.png", "z.bin",
     "a_0002.tif"]), unique=True, max_size=6)


@P.sub(fixed(before=PRE, ops=st.lists(op(
    ["image", "txt", "json", "list", "hdf", "stream"]), min_size=1,
    max_size=12)), quick=800, shards=4, rule="a name is used again")
def saves(c, ev):
    history(c, ev)


@P.sub(fixed(before=PRE, kind=st.sampled_from(
    ["image", "txt", "json", "list", "hdf", "stream"]),
    ops=st.lists(op(["image"]), min_size=2, max_size=14)), quick=400,
    shards=2, rule="a name is used again")
def one_kind(c, ev):
    """Many saves of one kind to few names."""
    history({"before": c["before"], "ops": [
        dict(o, kind=c["kind"], stem=["a", "a_0000", "s/a"][len(o["stem"])
                                                            % 3])
        for o in c["ops"]]}, ev)


@P.sub(fixed(before=PRE, ops=st.lists(op(
    ["plot", "points", "residual", "image"]), min_size=1, max_size=4)),
    quick=48, shards=4, rule="a name is used again",
    examples=[{"before": [], "ops": [
        {"kind": k, "stem": "a", "ext": 1, "ow": False, "v": v,
         "as_path": False, "big": False} for v in (1, 2, 3)]}
        for k in ("plot", "points", "residual")])
def plot_saves(c, ev):
    history(c, ev)


@P.sub(fixed(n=st.sampled_from([98, 99, 100, 101, 254, 255, 256, 1000, 1001,
                                9999, 10000, 10003]), kind=st.sampled_from(
    ["image", "txt", "json", "list", "hdf", "stream"])), quick=6, shards=2,
    thorough=36, rule="always")
def crowded_folder(c, ev):
    """A free name is found behind any number of taken ones."""
    ext = EXT[c["kind"]][0]
    with scratch() as d:
        for i in range(-1, c["n"]):
            with open(os.path.join(d, "m%s%s" % (
                    "" if i < 0 else "_%04d" % i, ext)), "wb") as f:
                f.write(b"old")
        o = {"kind": c["kind"], "v": 5, "ow": False, "as_path": False,
             "big": False}
        before = set(os.listdir(d))
        r, same = save(o, os.path.join(d, "m" + ext))
        new = set(os.listdir(d)) - before
        need(new == {os.path.basename(str(r))}, "new files %s, returned %s",
             sorted(new)[:3], r)
        need(same(str(r)), "the new file does not hold what was saved")
        for f in before:
            with open(os.path.join(d, f), "rb") as h:
                need(h.read() == b"old", "%s was changed", f)
    ev.nontrivial()


@P.sub(fixed(n=st.integers(5, 60), kind=st.sampled_from(
    ["image", "txt", "json", "list", "hdf", "stream"])), quick=20, shards=2,
    rule="always")
def many(c, ev):
    """Dozens of saves under one name are all kept, all different files."""
    with scratch() as d:
        path = os.path.join(d, "m" + EXT[c["kind"]][0])
        kept = {}
        for i in range(c["n"]):
            o = {"kind": c["kind"], "v": i, "ow": False, "as_path": False,
                 "big": False}
            r, same = save(o, path)
            need(os.path.realpath(r) not in kept, "save %d wrote %s again", i,
                 r)
            kept[os.path.realpath(r)] = same
        for p, same in kept.items():
            need(same(p), "%s does not hold what was saved to it", p)
    ev.nontrivial()
