"""C16 dot selection keeps exactly the dots meeting the criterion."""
from vlib import *
from checks.common import *
import discorpy.prep.preprocessing as prep

P = Prop("C16")
ASSUMPTIONS = ["dots are 4-connected components of a 0/1 image",
               "axis ratios and distances within 1e-6 of their limit are not "
               "judged; pixel counts exactly at a limit are"]
DT = ["int16", "uint8", "float32", "bool", "int64"]


def blobs(c):
    """Random blobs: discs, bars, L shapes, diagonal chains, scattered pixels,
    rings with something inside; they may share bounding boxes or touch the
    border (or each other: then they are one dot)."""
    g = rng(c["seed"])
    h, w = c["h"], c["w"]
    m = np.zeros((h, w), dtype=bool)
    y, x = np.mgrid[0:h, 0:w]
    for kind in c["kinds"]:
        cy, cx = g.uniform(-2, h + 2), g.uniform(-2, w + 2)
        r = g.uniform(1, c["rmax"])
        if kind == "disc":
            m |= np.hypot(y - cy, x - cx) <= r
        elif kind == "ellipse":
            t = g.uniform(0, np.pi)
            u = (x - cx) * np.cos(t) + (y - cy) * np.sin(t)
            v = (y - cy) * np.cos(t) - (x - cx) * np.sin(t)
            m |= (u / r) ** 2 + (v / (r * g.uniform(0.3, 1))) ** 2 <= 1
        elif kind == "bar":
            a, b = g.integers(1, 9, 2)
            m |= (np.abs(y - cy) <= a / 2) & (np.abs(x - cx) <= b / 2)
        elif kind == "ell":
            m |= (np.abs(y - cy) <= r) & (np.abs(x - cx) <= 0.7)
            m |= (np.abs(x - cx - r) <= r) & (np.abs(y - cy - r) <= 0.7)
        elif kind == "ring":
            d = np.hypot(y - cy, x - cx)
            m |= (np.abs(d - r - 3) <= 0.8) | (d <= 1.2)
        elif kind == "diag":
            for k in range(int(r) + 1):
                a, b = int(cy) + k, int(cx) + k
                if 0 <= a < h and 0 <= b < w:
                    m[a, b] = True
        else:
            m[int(np.clip(cy, 0, h - 1)), int(np.clip(cx, 0, w - 1))] = True
    return m


def components(m):
    """4-connected components as arrays of (y, x), by flood fill."""
    todo = {(int(a), int(b)) for a, b in np.argwhere(m)}
    out = []
    for p in [(int(a), int(b)) for a, b in np.argwhere(m)]:
        if p not in todo:
            continue
        todo.discard(p)
        stack, comp = [p], [p]
        while stack:
            a, b = stack.pop()
            for o in ((a - 1, b), (a + 1, b), (a, b - 1), (a, b + 1)):
                if o in todo:
                    todo.discard(o)
                    stack.append(o)
                    comp.append(o)
        out.append(np.array(comp))
    return out


bp = dict(h=st.integers(8, 60), w=st.integers(8, 60), seed=seeds,
          rmax=q(2, 9, 0.5), dtype=st.sampled_from(DT),
          kinds=st.lists(st.sampled_from(["disc", "disc", "ellipse", "bar",
                                          "ell", "ring", "diag", "dot"]),
                         min_size=1, max_size=14))


def judge(got, m, comps, keep, what):
    """keep[i] is True / False / None (not judged)."""
    got = arr(got, m.shape, what)
    need(set(np.unique(got).tolist()) <= {0, 1}, "%s: values %s", what,
         np.unique(got)[:5])
    need(not np.any((got != 0) & ~m), "%s: selected pixels that are not in "
         "the input", what)
    for comp, k in zip(comps, keep):
        v = got[comp[:, 0], comp[:, 1]] != 0
        need(v.all() or not v.any(), "%s: only %d of %d pixels of the dot at "
             "%s are kept", what, v.sum(), len(v), comp[0])
        if k is not None:
            need(bool(v[0]) == k, "%s: dot of %d pixels at %s was %s", what,
                 len(v), comp[0], "kept" if v[0] else "removed")


@P.sub(fixed(size=st.integers(1, 80), ratio=st.sampled_from(
        [0.0, 0.125, 0.25, 0.3, 0.5, 0.75, 1.0, 2.0]), **bp), quick=500,
       shards=2, rule="some kept, some removed")
def by_size(c, ev):
    m = blobs(c)
    comps = components(m)
    exact = c["ratio"] != 0.3
    keep = []
    for k in comps:
        n, e = len(k), abs(len(k) - c["size"]) - c["ratio"] * c["size"]
        keep.append(None if (not exact and abs(e) < 1e-6) else bool(e <= 0))
        ev.label("exactly at a limit", exact and e == 0)
    got = prep.select_dots_based_size(m.astype(c["dtype"]), c["size"],
                                      ratio=c["ratio"])
    judge(got, m, comps, keep, "selection by size %d, ratio %g" % (
        c["size"], c["ratio"]))
    ev.nontrivial(True in keep and False in keep)


def axes(comp):
    """Ratio of the axes of the ellipse with the same second moments."""
    p = comp - comp.mean(0)
    cov = p.T @ p / len(p)
    e = np.linalg.eigvalsh(cov)
    return float(np.sqrt(e[1] / e[0]))


@P.sub(fixed(ratio=st.one_of(q(0, 1, 0.05), q(1, 4, 0.5)), **bp), quick=500,
       shards=2, rule="some kept, some removed")
def by_axis_ratio(c, ev):
    m = blobs(c)
    comps = components(m)
    keep = []
    for k in comps:
        if np.ptp(k, axis=0).min() == 0:
            keep.append(False)
            continue
        v = abs(axes(k) - 1.0)
        keep.append(None if abs(v - c["ratio"]) < 1e-6 else v < c["ratio"])
    got = prep.select_dots_based_ratio(m.astype(c["dtype"]), ratio=c["ratio"])
    judge(got, m, comps, keep, "selection by axis ratio %g" % c["ratio"])
    ev.nontrivial(True in keep and False in keep)


@P.sub(fixed(dist=q(3, 40, 0.25), ratio=st.one_of(q(0, 1, 0.05), st.just(0.3)),
             **bp), quick=500, shards=2, rule="some kept, some removed")
def by_distance(c, ev):
    m = blobs(c)
    comps = components(m)
    if len(comps) < 1:
        return
    cen = np.array([k.mean(0) for k in comps])
    keep = []
    for i in range(len(comps)):
        d = np.sort(np.hypot(*(np.delete(cen, i, 0) - cen[i]).T))[:3]
        f = np.mod(d, c["dist"]) / c["dist"]
        # close to a limit, or to a whole multiple, from either side
        near = (np.abs(f - c["ratio"]) < 1e-6) | (f > 1 - 1e-6) | (
            (f < 1e-6) & (d > 1e-6))
        sure = (f < c["ratio"]) & ~near
        keep.append(True if sure.any() else None if near.any() else False)
        whole = np.abs(np.round(d / c["dist"]) * c["dist"] - d) == 0.0
        if c["ratio"] > 0 and np.any(whole & (d == np.round(d)) & (
                np.abs(np.round(d)) < 100) & (d > 0)) and \
                c["dist"] == round(c["dist"]):
            keep[-1] = True           # exact multiple: excess zero
    got = prep.select_dots_based_distance(m.astype(c["dtype"]), c["dist"],
                                          ratio=c["ratio"])
    judge(got, m, comps, keep, "selection by distance %g, ratio %g" % (
        c["dist"], c["ratio"]))
    ev.nontrivial(True in keep and False in keep)


@P.sub(fixed(nh=st.integers(3, 7), nv=st.integers(3, 7), d=st.integers(8, 14),
             r=st.sampled_from([1.5, 2.3, 3.3]), miss=st.integers(0, 3),
             iso=st.integers(15, 40), seed=seeds,
             ratio=st.sampled_from([0.1, 0.3, 0.5])), quick=200,
       rule="an odd dot is present")
def grid_dots_stay(c, ev):
    """A regular grid of equal dots with one odd dot: every criterion keeps
    the grid; the odd one goes."""
    d = c["d"]
    h, w = c["nh"] * d + 2 * c["iso"], c["nv"] * d
    y, x = np.mgrid[0:h, 0:w]
    m = np.zeros((h, w), dtype=bool)
    for i in range(c["nh"]):
        for j in range(c["nv"]):
            m |= np.hypot(y - i * d - d // 2, x - j * d - d // 2) <= c["r"]
    grid_only = m.copy()
    # odd dot far below: larger, elongated
    cy, cx = c["nh"] * d + c["iso"], w // 2
    m |= (np.abs(y - cy) <= 1) & (np.abs(x - cx) <= 9)
    area = int(grid_only.sum()) // (c["nh"] * c["nv"])
    a = prep.select_dots_based_size(np.int16(m), area, ratio=c["ratio"])
    big = len(m[(np.abs(y - cy) <= 1) & (np.abs(x - cx) <= 9)].nonzero()[0])
    if not area * (1 - c["ratio"]) - 1 <= big <= area * (1 + c["ratio"]) + 1:
        close(a, grid_only, 0, "grid selected by size")
    a = prep.select_dots_based_ratio(np.int16(m), ratio=c["ratio"])
    close(a, grid_only, 0, "grid selected by axis ratio")
    a = arr(prep.select_dots_based_distance(np.int16(m), d, ratio=c["ratio"]),
            m.shape)
    need(np.all(a[grid_only] == 1), "selection by the true distance removes "
         "dots of a regular grid")
    ev.nontrivial()


@P.sub(fixed(nh=st.integers(12, 26), nv=st.integers(12, 26), seed=seeds,
             way=st.sampled_from(["size", "ratio", "distance"]),
             dtype=st.sampled_from(DT)), quick=24, shards=4, thorough=300,
       rule="more than 255 dots, some kept, some removed")
def many_dots(c, ev):
    """Hundreds of dots of different size, shape and distance."""
    g = rng(c["seed"])
    nh, nv = c["nh"], c["nv"]
    p = 9
    m = np.zeros((nh * p + 2, nv * p + 2), dtype=bool)
    for i in range(nh):
        for j in range(nv):
            if g.random() < 0.05:
                continue
            a, b = g.integers(2, 6, 2)
            y, x = i * p + int(g.integers(0, 3)), j * p + int(g.integers(0, 3))
            m[y:y + a, x:x + b] = True
    comps = components(m)
    cen = np.array([k.mean(0) for k in comps])
    keep = []
    for i, k in enumerate(comps):
        if c["way"] == "size":
            keep.append(4.5 <= len(k) <= 13.5)
        elif c["way"] == "ratio":
            v = abs(axes(k) - 1.0)
            keep.append(None if abs(v - 0.4) < 1e-6 else bool(v < 0.4))
        else:
            d = np.sort(np.hypot(*(np.delete(cen, i, 0) - cen[i]).T))[:3]
            f = np.mod(d, 9.3) / 9.3
            near = (np.abs(f - 0.05) < 1e-6) | (f > 1 - 1e-6) | (f < 1e-6)
            keep.append(None if near.any() else bool(np.any(f < 0.05)))
    m2 = m.astype(c["dtype"])
    if c["way"] == "size":
        got = prep.select_dots_based_size(m2, 9.0, ratio=0.5)
    elif c["way"] == "ratio":
        got = prep.select_dots_based_ratio(m2, ratio=0.4)
    else:
        got = prep.select_dots_based_distance(m2, 9.3, ratio=0.05)
    judge(got, m, comps, keep, "selection by " + c["way"])
    ev.nontrivial(len(comps) > 255 and True in keep and False in keep)
