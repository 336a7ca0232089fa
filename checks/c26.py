"""C26 HDF data."""
import contextlib
import io
import os
import h5py
from vlib import *
from checks.common import *
from checks.files import scratch
import discorpy.losa.loadersaver as losa

P = Prop("C26")
ASSUMPTIONS = ["lists of indices are increasing (required by h5py)"]
HD = ["float32", "float64", "uint8", "uint16", "int32"]


def fill(shape, seed, dtype):
    return (rng(seed).random(shape) * 200).astype(dtype)


dims = st.lists(st.integers(1, 7), min_size=1, max_size=4)
group_names = ["entry", "g1", "data", "instrument", "x", "data2", "Data",
               "X"]
nodes = st.lists(fixed(path=st.lists(st.sampled_from(group_names), min_size=1,
                                     max_size=3),
                       shape=dims, dtype=st.sampled_from(HD), seed=seeds,
                       group=st.sampled_from([False, False, False, True]),
                       link=st.sampled_from([False] * 6 + [True])),
                 min_size=0, max_size=7)


def build(path, spec):
    """Writes the file; returns {dataset path: array}, {group paths}."""
    data, groups, dangling = {}, set(), set()
    with h5py.File(path, "w") as f:
        for s in spec:
            p = "/".join(s["path"])
            par = ["/".join(s["path"][:i]) for i in range(1, len(s["path"]))]
            if p in data or p in groups or p in dangling or any(
                    t in data or t in dangling for t in par):
                continue
            groups.update(par)
            if s["group"]:
                f.require_group(p)
                groups.add(p)
            elif s["link"]:
                for t in par:
                    f.require_group(t)
                f[p] = h5py.SoftLink("/nowhere")
                dangling.add(p)
            else:
                a = fill(s["shape"], s["seed"], s["dtype"])
                f.create_dataset(p, data=a)
                data[p] = a
    return data, groups, dangling


@P.sub(fixed(nodes=nodes, show=st.booleans(), pat=st.sampled_from(
    ["data", "entry", "x", "g1/data", "nothing", "a", "instrument/x", "DATA",
     "Data", "X", "ta2"])),
    quick=600, rule="at least two datasets, one nested")
def information(c, ev):
    with scratch() as d:
        p = os.path.join(d, "f.hdf")
        data, groups, _ = build(p, c["nodes"])
        for pat in (None, c["pat"]):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                r = losa.get_hdf_information(p, display=c["show"]) if \
                    pat is None else losa.find_hdf_key(p, pat,
                                                       display=c["show"])
            out = out.getvalue()
            need(bool(out.strip()) == c["show"], "display=%s printed %r",
                 c["show"], out[:80])
            need(isinstance(r, tuple) and len(r) == 3
                 and len(r[0]) == len(r[1]) == len(r[2]),
                 "keys, shapes and types do not match in number")
            seen = set()
            for k, sh, ty in zip(*r):
                kk = k.strip("/")
                if pat is not None:
                    need(pat in k, "key %s does not match %s", k, pat)
                if kk in data:
                    need(sh is not None and tuple(sh) == data[kk].shape
                         and ty == data[kk].dtype, "dataset %s listed with "
                         "shape %s, type %s; it has %s, %s", k, sh, ty,
                         data[kk].shape, data[kk].dtype)
                    seen.add(kk)
                else:
                    need(sh is None and ty is None, "%s is listed with shape "
                         "%s but is not a dataset", k, sh)
            want = {k for k in data if pat is None or pat in k}
            for k in want if c["show"] else ():
                need(any(k in ln and str(data[k].shape) in ln and
                         str(data[k].dtype) in ln
                         for ln in out.splitlines()), "%s with its shape and "
                     "type is not in the display", k)
            need(seen == want, "datasets listed: %s; in the file: %s",
                 sorted(seen), sorted(want))
        for k in data:
            o = losa.load_hdf_object(p, k)
            need(np.array_equal(np.asarray(o[...]), data[k])
                 and o.dtype == data[k].dtype and o.shape == data[k].shape,
                 "load_hdf_object changed %s", k)
            o.file.close()
        # the data found without a key
        cand = [k for k in data if k.endswith("/data") and 2 <= data[k].ndim
                <= 3]
        bad = [k for k in data if k.endswith("/data") and k not in cand]
        if not cand and not bad:
            raises(ValueError, losa.load_hdf_file, p)
        elif not bad:
            m = np.asarray(losa.load_hdf_file(p))
            need(any(m.shape == data[k].shape and np.array_equal(
                np.float64(m), np.float64(np.float32(data[k])) if
                data[k].ndim == 3 else np.float64(data[k])) for k in cand),
                "the dataset found without a key is none of %s", cand)
        raises(ValueError, losa.load_hdf_object, p, "entry/none")
        raises(ValueError, losa.load_hdf_file, p, "entry/none")
    ev.nontrivial(len(data) > 1 and any("/" in k for k in data))


def index_cases():
    return st.one_of(
        st.none(),
        fixed(t=st.just("int"), v=st.integers(-9, 9)),
        fixed(t=st.just("range"), a=st.integers(0, 9), b=st.integers(0, 10)),
        fixed(t=st.just("step"), a=st.integers(0, 9), b=st.integers(0, 10),
              s=st.sampled_from([1, 2, 3, 4, -1, -2])),
        fixed(t=st.just("list"), v=st.lists(st.integers(0, 9), unique=True,
                                            min_size=1, max_size=7)))


@P.sub(fixed(shape=st.lists(st.integers(1, 9), min_size=2, max_size=3),
             dtype=st.sampled_from(HD), seed=seeds,
             key=st.sampled_from(["entry/data", "d", "a/b/c"]),
             axis=st.integers(0, 2), index=index_cases(),
             tup=st.booleans()), quick=1500, shards=2,
       rule="an index into a 3D dataset")
def slices(c, ev):
    a = fill(tuple(c["shape"]), c["seed"], c["dtype"])
    ax, ix = c["axis"], c["index"]
    with scratch() as d:
        p = os.path.join(d, "f.nxs")
        with h5py.File(p, "w") as f:
            f.create_dataset(c["key"], data=a)
        if a.ndim == 2:
            got = losa.load_hdf_file(p, c["key"], axis=ax)
            need(np.array_equal(got, a) and got.dtype == a.dtype, "2D dataset "
                 "changed")
            return
        n = a.shape[ax]
        if ix is None:
            arg, want = None, a
        elif ix["t"] == "int":
            arg = ix["v"]
            want = None if not -n <= arg < n else np.take(a, arg, axis=ax)
        else:
            if ix["t"] == "range":
                arg = [ix["a"], ix["b"]]
                sel = list(range(ix["a"], ix["b"]))
            elif ix["t"] == "step":
                arg = [ix["a"], ix["b"], ix["s"]]
                sel = list(range(ix["a"], ix["b"], ix["s"]))
            else:
                arg = sel = sorted(ix["v"])
                if len(sel) in (2, 3):
                    return
            if c["tup"]:
                arg = tuple(arg)
            if not sel or max(sel) >= n:
                want = None
            elif len(sel) > 1 and sel[0] > sel[1]:
                # a falling range: refused, or the data asked for
                try:
                    got = losa.load_hdf_file(p, c["key"], arg, ax)
                except (ValueError, IndexError, TypeError, OSError):
                    return
                need(np.array_equal(got, np.float32(np.take(a, sel,
                                                            axis=ax))),
                     "index %s along axis %d: wrong data", arg, ax)
                return
            else:
                want = np.take(a, sel, axis=ax)
                if len(sel) == 1:
                    want = np.squeeze(want, axis=ax)
        if want is None:
            raises((ValueError, IndexError, TypeError, OSError), losa.load_hdf_file, p,
                   c["key"], arg, ax)
            ev.label("out of range")
            return
        got = arr(losa.load_hdf_file(p, c["key"], arg, ax), want.shape,
                  "loaded data")
        need(np.array_equal(np.float64(got), np.float64(np.float32(want))),
             "index %s along axis %d of %s: wrong data", arg, ax, a.shape)
        ev.nontrivial(arg is not None)
        ev.label("axis=%d" % ax)


@P.sub(fixed(shape=st.lists(st.integers(1, 8), min_size=1, max_size=4),
             dtype=st.sampled_from(HD), seed=seeds,
             key=st.sampled_from(["entry", "entry/data", "a/b", "x"]),
             name=st.sampled_from(["f.hdf", "f.h5", "f.nxs", "f.hdf5", "f",
                                   "s/t/f.HDF", "f.txt"])), quick=300,
       rule="2D or 3D")
def saved(c, ev):
    a = fill(tuple(c["shape"]), c["seed"], c["dtype"])
    with scratch() as d:
        p = losa.save_hdf_file(os.path.join(d, c["name"]), a, c["key"])
        need(os.path.isfile(p) and os.path.splitext(str(p))[1].lower() in
             (".hdf", ".h5", ".nxs", ".hdf5"), "saved to %s", p)
        with h5py.File(p, "r") as f:
            b = f[c["key"] + "/data"][...]
        need(b.dtype == a.dtype and np.array_equal(a, b), "data in the file "
             "differ from the data saved")
        if 2 <= a.ndim <= 3:
            m = losa.load_hdf_file(p)
            need(np.array_equal(np.float32(m), np.float32(a)), "data loaded "
                 "without a key differ")
            m = losa.load_hdf_file(p, c["key"] + "/data")
            need(np.array_equal(np.float32(m), np.float32(a)), "data loaded "
                 "differ")
        else:
            raises(ValueError, losa.load_hdf_file, p, c["key"] + "/data")
    ev.nontrivial(2 <= a.ndim <= 3)


@P.sub(fixed(shape=st.lists(st.integers(1, 8), min_size=3, max_size=3),
             dtype=st.sampled_from(HD), seed=seeds,
             key=st.sampled_from(["entry/data", "x/y/z"]),
             order=st.sampled_from(["up", "down", "chunks"]),
             meta=st.lists(st.sampled_from(["entry/angles", "info", "m/n"]),
                           unique=True),
             name=st.sampled_from(["f.hdf", "f", "s/f.nxs"])), quick=250,
       rule="with metadata")
def stream(c, ev):
    a = fill(tuple(c["shape"]), c["seed"], c["dtype"])
    meta = {k: fill((3 + i,), c["seed"] + i, "float64")
            for i, k in enumerate(c["meta"])}
    with scratch() as d:
        kw = {"options": meta} if meta else {}
        o = losa.open_hdf_stream(os.path.join(d, c["name"]), a.shape,
                                 key_path=c["key"], data_type=c["dtype"],
                                 **kw)
        need(tuple(o.shape) == a.shape and o.dtype == a.dtype, "stream of "
             "shape %s, type %s; asked for %s, %s", o.shape, o.dtype, a.shape,
             a.dtype)
        n = len(a)
        if c["order"] == "chunks":
            for i in range(0, n, 3):
                o[i:i + 3] = a[i:i + 3]
        else:
            for i in (range(n) if c["order"] == "up"
                      else reversed(range(n))):
                o[i] = a[i]
        path = o.file.filename
        o.file.close()
        m = losa.load_hdf_file(path, c["key"])
        need(np.array_equal(np.float64(m), np.float64(np.float32(a))),
             "streamed data differ")
        for k, v in meta.items():
            w = losa.load_hdf_object(path, k)
            need(np.array_equal(w[...], v), "metadata %s differ", k)
            w.file.close()
    ev.nontrivial(len(meta) > 0)


@P.sub(fixed(kind=st.sampled_from(["missing", "text", "empty"]), seed=seeds),
       quick=30, rule="always")
def unreadable(c, ev):
    with scratch() as d:
        p = os.path.join(d, "f.hdf")
        if c["kind"] != "missing":
            with open(p, "wb") as f:
                f.write(b"" if c["kind"] == "empty" else b"not an hdf file")
        raises((ValueError, OSError), losa.load_hdf_file, p, "entry/data")
        raises((ValueError, OSError), losa.load_hdf_object, p, "entry/data")
        raises((ValueError, OSError), losa.get_hdf_information, p)
        raises((ValueError, OSError), losa.find_hdf_key, p, "data")
    ev.nontrivial()
