"""C25 saved calibration data reload as saved."""
import json
import os
import pathlib
from vlib import *
from checks.common import *
from checks.files import scratch
import discorpy.losa.loadersaver as losa

P = Prop("C25")
ASSUMPTIONS = ["finite values"]

number = st.one_of(
    st.floats(allow_nan=False, allow_infinity=False),
    st.floats(-5000, 5000), st.integers(-10 ** 6, 10 ** 6),
    q(-3000, 3000, 0.25))
KINDS = ["list", "tuple", "f8", "f4", "scalars"]
names = st.sampled_from(["coef.txt", "coef", "a/b/coef.txt", "x y.txt",
                         "coef.json", "a.b/coef", "Coef.TXT", "c.dat",
                         "coef.pkl", "a/../a/coef", "m\u00fc.txt"])


def values(c):
    f = c["fact"]
    k = c["kind"]
    if k == "tuple":
        v = tuple(f)
    elif k == "f8":
        v = np.float64(f)
    elif k == "f4":
        with np.errstate(all="ignore"):
            v = np.float32(f)
        v = np.where(np.isfinite(v), v, np.float32(1.5)).astype(np.float32)
    elif k == "scalars":
        v = [np.float64(t) for t in f]
    else:
        v = list(f)
    x, y = c["x"], c["y"]
    if c["npc"]:
        x, y = np.float64(x), np.float64(y)
    return x, y, v


def same(got, x, y, v, what):
    need(isinstance(got, tuple) and len(got) == 3, "%s gave %s", what,
         type(got))
    gx, gy, gf = got
    need(float(gx) == float(x) and float(gy) == float(y), "%s: center (%r, "
         "%r) saved, (%r, %r) loaded", what, x, y, gx, gy)
    need(len(gf) == len(v), "%s: %d coefficients saved, %d loaded", what,
         len(v), len(gf))
    for i, (a, b) in enumerate(zip(gf, v)):
        ok = float(a) == float(b) or (isinstance(b, np.float32)
                                      and np.float32(a) == b)
        need(ok, "%s: coefficient %d is %r, saved %r", what, i, a, b)


meta_case = fixed(x=number, y=number, fact=st.one_of(
    st.lists(number, max_size=9), st.lists(number, min_size=9, max_size=24)),
                  kind=st.sampled_from(KINDS), npc=st.booleans(),
                  name=names, as_path=st.booleans(), ow=st.booleans(),
                  other=number)


@P.sub(meta_case, quick=600, rule="at least two coefficients")
def metadata(c, ev):
    x, y, v = values(c)
    for save, load, exts in (
            (losa.save_metadata_txt, losa.load_metadata_txt, (".txt", ".dat")),
            (losa.save_metadata_json, losa.load_metadata_json, (".json",))):
        with scratch() as d:
            p = os.path.join(d, c["name"])
            arg = pathlib.Path(p) if c["as_path"] else p
            back = save(arg, x, y, v, overwrite=c["ow"])
            need(os.path.isfile(back), "%s returned %s, which is not a file",
                 save.__name__, back)
            need(os.path.splitext(str(back))[1].lower() in exts,
                 "%s wrote %s", save.__name__, back)
            need(os.path.dirname(os.path.realpath(back)) == os.path.dirname(
                os.path.realpath(p)), "%s wrote %s when asked for %s",
                save.__name__, back, p)
            same(load(back), x, y, v, save.__name__)
            same(load(str(back)), x, y, v, save.__name__)
            # a second save over it
            again = save(arg, c["other"], y, list(v) + [c["other"]],
                         overwrite=c["ow"])
            same(load(again), c["other"], y, list(v) + [c["other"]],
                 save.__name__ + " (again)")
            if not c["ow"]:
                same(load(back), x, y, v, "the first file")
    ev.nontrivial(len(c["fact"]) > 1)
    ev.label("kind=" + c["kind"])


@P.sub(fixed(x=number, y=number, fact=st.lists(number, max_size=6),
             sep=st.sampled_from([" = ", " =  ", " ", " : ", "\t"]),
             end=st.sampled_from(["", "\n"])), quick=200,
       rule="at least two coefficients")
def text_layout(c, ev):
    """A text file with one named value per line, in order."""
    with scratch() as d:
        p = os.path.join(d, "c.txt")
        rows = [("xcenter", c["x"]), ("ycenter", c["y"])] + [
            ("factor%d" % i, f) for i, f in enumerate(c["fact"])]
        with open(p, "w") as h:
            h.write("\n".join(n + c["sep"] + repr(t) for n, t in rows)
                    + c["end"])
        same(losa.load_metadata_txt(p), c["x"], c["y"], c["fact"],
             "load_metadata_txt")
    ev.nontrivial(len(c["fact"]) > 1)


@P.sub(fixed(x=number, y=number, fact=st.lists(number, max_size=6)),
       quick=100, rule="at least two coefficients")
def json_layout(c, ev):
    """The JSON file is plain JSON with the documented names."""
    with scratch() as d:
        p = losa.save_metadata_json(os.path.join(d, "c.json"), c["x"],
                                    c["y"], np.float64(c["fact"]))
        with open(p) as h:
            m = json.load(h)
        need(m["xcenter"] == float(c["x"]) and m["ycenter"] == float(c["y"])
             and list(m["list_fact"]) == [float(t) for t in c["fact"]],
             "JSON holds %s", str(m)[:200])
        with open(p, "w") as h:
            json.dump({"list_fact": c["fact"], "ycenter": c["y"],
                       "xcenter": c["x"], "more": 1}, h)
        same(losa.load_metadata_json(p), c["x"], c["y"], c["fact"],
             "load_metadata_json")
    ev.nontrivial(len(c["fact"]) > 1)


leaf = st.one_of(st.none(), st.booleans(), number, st.text(max_size=8))
tree = st.recursive(leaf, lambda t: st.one_of(
    st.lists(t, max_size=4), st.dictionaries(st.text(max_size=4), t,
                                             max_size=3)), max_leaves=12)


@P.sub(fixed(data=st.lists(tree, max_size=5), seed=seeds,
             shapes=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 4)),
                             max_size=5),
             dtype=st.sampled_from(DTYPES), name=names,
             as_path=st.booleans(), ow=st.booleans()), quick=500,
       rule="lists of arrays")
def lists(c, ev):
    """Python lists, also of arrays of points, come back equal."""
    g = rng(c["seed"])
    arrs = [(g.random(s) * 200).astype(c["dtype"]) for s in
            map(tuple, c["shapes"])]
    data = list(c["data"]) + arrs
    with scratch() as d:
        p = os.path.join(d, c["name"])
        back = losa.save_python_list(pathlib.Path(p) if c["as_path"] else p,
                                     data, overwrite=c["ow"])
        need(os.path.isfile(back) and str(back).lower().endswith(".pkl"),
             "save_python_list returned %s", back)
        got = losa.load_python_list(back)
    need(isinstance(got, list) and len(got) == len(data), "%d items saved, "
         "%s loaded", len(data), type(got))
    k = len(c["data"])
    need(got[:k] == c["data"], "list changed: %s", str(got[:k])[:200])
    for a, b in zip(got[k:], arrs):
        need(isinstance(a, np.ndarray) and a.dtype == b.dtype
             and a.shape == b.shape and np.array_equal(a, b),
             "array changed")
    ev.nontrivial(len(arrs) > 0)


@P.sub(fixed(name=st.sampled_from(["no.txt", "no.json", "no.pkl", "a/no"])),
       quick=20, rule="always")
def missing(c, ev):
    with scratch() as d:
        p = os.path.join(d, c["name"])
        for f in (losa.load_metadata_txt, losa.load_metadata_json,
                  losa.load_python_list):
            raises((ValueError, OSError), f, p)
    ev.nontrivial()


@P.sub(fixed(files=st.lists(st.sampled_from(
    ["a_001.tif", "a_010.tif", "a_002.tif", "b.txt", "a.tiff", "A_1.tif",
     "c/a_1.tif"]), unique=True), pat=st.sampled_from(
         ["*.tif", "a_*", "*.txt", "b.txt", "a_00?.tif", "*", "zz*"]),
    as_path=st.booleans()), quick=200, rule="more than one file found")
def find(c, ev):
    """Files matching a pattern, all of them, sorted."""
    import fnmatch
    with scratch() as d:
        for f in c["files"]:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "w").close()
        want = sorted(os.path.join(d, f) for f in set(
            t.split("/")[0] for t in c["files"])
            if fnmatch.fnmatchcase(f, c["pat"]))
        p = os.path.join(d, c["pat"])
        p = pathlib.Path(p) if c["as_path"] else p
        if not want:
            raises(FileNotFoundError, losa.find_file, p)
            return
        got = losa.find_file(p)
        need(list(got) == want, "pattern %s found %s, expected %s", c["pat"],
             [os.path.relpath(t, d) for t in got],
             [os.path.relpath(t, d) for t in want])
        ev.nontrivial(len(want) > 1)
