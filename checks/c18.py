"""C18 point filters remove outliers and keep everything else."""
from vlib import *
from checks.common import *
import discorpy.prep.preprocessing as prep

P = Prop("C18")
ASSUMPTIONS = ["lines of at least 4 points",
               "points within 1e-6 of a limit, and pixels on a mask boundary "
               "that is not exactly representable, are not judged; rotated "
               "masks are not judged within 1.5 px of their boundary"]
RES = {"hor": prep.remove_residual_dots_hor,
       "ver": prep.remove_residual_dots_ver}


def parabola_error(ln):
    """|y - fit(x)| for a least-squares parabola, in double precision."""
    y, x = np.float64(ln[:, 0]), np.float64(ln[:, 1])
    m, s = x.mean(), max(np.ptp(x), 1e-9)
    v = np.vander((x - m) / s, 3)
    return np.abs(v @ np.linalg.lstsq(v, y, rcond=None)[0] - y)


@P.sub(fixed(sizes=st.lists(st.integers(4, 14), min_size=1, max_size=6),
             slope=q(-1.0, 1.0, 0.05), curve=q(-3, 3, 0.5),
             spread=st.sampled_from([0.0, 0.3, 1.0, 4.0]),
             out=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 13),
                                    q(-30, 30, 1)), max_size=5),
             residual=st.one_of(q(0.1, 6, 0.1), q(1, 30, 1)), seed=seeds,
             shuffle=st.booleans(), way=st.sampled_from(["hor", "ver"]),
             form=st.sampled_from(["array", "float32"])), quick=1200,
       shards=2, rule="some points kept and some removed")
def residual_dots(c, ev):
    g = rng(c["seed"])
    lines = []
    for i, n in enumerate(c["sizes"]):
        x = np.sort(g.choice(200, n, replace=False)) * 6.0 + g.uniform(0, 3, n)
        y = 50 * i + c["slope"] * x + c["curve"] * 1e-4 * (x - 400) ** 2 \
            + c["spread"] * g.standard_normal(n)
        for a, b, v in c["out"]:
            if a == i and b < n:
                y[b] += v
        ln = np.stack((y, x), -1)
        lines.append(ln[g.permutation(n)] if c["shuffle"] else ln)
    k = np.cos(np.arctan(c["slope"]))
    if c["form"] == "float32":
        lines = [np.float32(ln) for ln in lines]
    err = [parabola_error(ln) * k for ln in lines]
    margin = 5e-3 if c["form"] == "float32" else 1e-6
    given = [ln[:, ::-1].copy() for ln in lines] if c["way"] == "ver" \
        else lines
    lim = c["residual"]
    sure = [e < lim - margin for e in err]
    maybe = [e < lim + margin for e in err]
    if not any(m.any() for m in maybe):
        raises(ValueError, RES[c["way"]], given, c["slope"], residual=lim)
        return
    if not any(s.any() for s in sure):
        return
    got = RES[c["way"]](given, c["slope"], residual=lim)
    if any(np.any(s != m) for s, m in zip(sure, maybe)):
        return
    want = [ln[s] for ln, s in zip(given, sure) if s.any()]
    need(len(got) == len(want), "%d lines left, %d expected", len(got),
         len(want))
    for a, b in zip(got, want):
        close(a, b, 0, "points left on a line")
    cut = sum(int((~s).sum()) for s in sure)
    ev.nontrivial(cut > 0)
    ev.label("line removed", len(want) < len(lines))


def inside(y, x, c, edge=0.0):
    """Analytic mask membership at (y, x), shrunk by edge pixels."""
    h, w = c["h"], c["w"]
    t, b = c["vm"] if isinstance(c["vm"], (list, tuple)) else (c["vm"],) * 2
    le, ri = c["hm"] if isinstance(c["hm"], (list, tuple)) else (c["hm"],) * 2
    py = c["vc"] / w * (x - w / 2.0) ** 2
    px = c["hc"] / h * (y - h / 2.0) ** 2
    return ((y - (py + t) > edge) & (h - b - py - y > edge) &
            (x - (px + le) > edge) & (w - ri - px - x > edge))


mp = dict(h=st.integers(5, 150), w=st.integers(5, 150),
          hc=st.one_of(q(-0.5, 1.5, 0.05), st.just(0.0)),
          vc=st.one_of(q(-0.5, 1.5, 0.05), st.just(0.0)),
          hm=st.one_of(st.integers(0, 30), st.tuples(st.integers(0, 30),
                                                     st.integers(0, 30))),
          vm=st.one_of(st.integers(0, 30), st.tuples(st.integers(0, 30),
                                                     st.integers(0, 30))),
          aslist=st.booleans())


def margins(c):
    f = (lambda v: v) if c["aslist"] else (
        lambda v: tuple(v) if isinstance(v, (list, tuple)) else v)
    return dict(hor_curviness=c["hc"], ver_curviness=c["vc"],
                hor_margin=f(c["hm"]), ver_margin=f(c["vm"]))


def too_wide(c):
    s = [sum(v) if isinstance(v, (list, tuple)) else 2 * v
         for v in (c["hm"], c["vm"])]
    return s[0] > c["w"] or s[1] > c["h"]


@P.sub(fixed(**mp), quick=700, rule="asymmetric or curved")
def mask(c, ev):
    if too_wide(c):
        raises(ValueError, prep.make_parabola_mask, c["h"], c["w"],
               **margins(c))
        return
    got = arr(prep.make_parabola_mask(c["h"], c["w"], **margins(c)),
              (c["h"], c["w"]), "mask")
    need(np.all((got == 0) | (got == 1)), "mask values other than 0 and 1")
    y, x = np.mgrid[0:c["h"], 0:c["w"]].astype(np.float64)
    a, b = inside(y, x, c, 1e-6), inside(y, x, c, -1e-6)
    if c["hc"] == 0 and c["vc"] == 0:
        a = b = inside(y, x, c)          # integer boundaries: exact
    need(np.all(got[a] == 1), "pixel %s inside is not in the mask",
         np.argwhere(a & (got != 1))[:1])
    need(np.all(got[~b] == 0), "pixel %s outside is in the mask",
         np.argwhere(~b & (got != 0))[:1])
    ev.nontrivial(bool(c["hc"] != c["vc"] or c["hm"] != c["vm"]))
    ev.label("empty", not got.any())


@P.sub(fixed(rot=st.one_of(q(-40, 40, 1), st.sampled_from([90.0, -90.0, 180.0,
                                                           5.0])), **mp),
       quick=300, rule="rotated")
def rotated_mask(c, ev):
    if too_wide(c):
        return
    h, w = c["h"], c["w"]
    got = arr(prep.make_parabola_mask(h, w, rotate=c["rot"], **margins(c)),
              (h, w), "mask")
    need(np.all((got == 0) | (got == 1)), "mask values other than 0 and 1")
    t = np.deg2rad(c["rot"])
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    u, v = y - (h - 1) / 2.0, x - (w - 1) / 2.0
    yi = np.cos(t) * u + np.sin(t) * v + (h - 1) / 2.0
    xi = -np.sin(t) * u + np.cos(t) * v + (w - 1) / 2.0
    frame = (yi > 1.5) & (yi < h - 2.5) & (xi > 1.5) & (xi < w - 2.5)
    # steep curves: widen the part not judged
    e = 2.0 * (1 + abs(c["hc"]) + abs(c["vc"]))
    a = inside(yi, xi, c, e) & frame
    b = inside(yi, xi, c, -e) & (yi > -1.5) & (yi < h + 0.5) & (xi > -1.5) \
        & (xi < w + 0.5)
    need(np.all(got[a] == 1), "pixel inside the rotated boundary is not in "
         "the mask")
    need(np.all(got[~b] == 0), "pixel outside the rotated boundary is in the "
         "mask")
    ev.nontrivial(c["rot"] != 0)


@P.sub(fixed(n=st.integers(0, 60), rot=st.sampled_from([0.0, 0.0, 10.0, -25.0,
                                                        90.0]),
             seed=seeds, kind=st.sampled_from(["float", "int", "float32"]),
             **mp), quick=700, rule="some points kept and some removed")
def masked_points(c, ev):
    if too_wide(c):
        return
    g = rng(c["seed"])
    pts = g.uniform(-0.4, 1.4, (c["n"], 2)) * [c["h"], c["w"]]
    if c["kind"] == "int":
        pts = np.int64(np.round(pts))
    elif c["kind"] == "float32":
        pts = np.float32(pts)
    m = np.asarray(prep.make_parabola_mask(c["h"], c["w"], rotate=c["rot"],
                                           **margins(c)))
    want = []
    for p in pts:
        y, x = int(np.floor(p[0])), int(np.floor(p[1]))
        if 0 <= y < c["h"] and 0 <= x < c["w"] and m[y, x] == 1:
            want.append(p)
    if c["n"] and np.any((pts > -1) & (pts < 0)):
        # a coordinate between -1 and 0 is outside; row and column 0 may only
        # be inside for strongly negative curviness
        if c["hc"] < 0 or c["vc"] < 0 or c["rot"]:
            return
    got = prep.remove_points_using_parabola_mask(
        pts, c["h"], c["w"], rotate=c["rot"], **margins(c))
    close(got, np.reshape(np.array(want, dtype=pts.dtype), (-1, 2)), 0,
          "points inside the mask")
    ev.nontrivial(0 < len(want) < c["n"])


@P.sub(fixed(n=st.integers(1, 30), angle=st.one_of(
        q(-360, 360, 0.5), st.sampled_from([0.0, 90.0, 180.0, -90.0])),
    seed=seeds, form=st.sampled_from(["array", "list", "int"]),
    degree=st.booleans()), quick=500, rule="angle not 0")
def rotated_points(c, ev):
    g = rng(c["seed"])
    p = np.round(g.uniform(-1000, 2000, (c["n"], 2)) * 8) / 8
    if c["form"] == "int":
        p = np.int64(p)
    t = float(np.deg2rad(c["angle"]))
    a = c["angle"] if c["degree"] else t
    given = p.tolist() if c["form"] == "list" else p
    got = arr(prep.rotate_points(given, a, degree_unit=c["degree"]), p.shape)
    z = (p[:, 1] + 1j * p[:, 0]) * np.exp(1j * t)
    close(got, np.stack((z.imag, z.real), -1), 1e-8, "rotated points")
    back = prep.rotate_points(got, -a, degree_unit=c["degree"])
    close(back, p, 1e-8, "points rotated back")
    ev.nontrivial(c["angle"] != 0)


@P.sub(fixed(n=st.integers(1, 25), k=st.integers(0, 25),
             stray=st.integers(0, 3), dup=st.booleans(), seed=seeds,
             fine=st.sampled_from([0, 0, 1, 4, 9]),
             form=st.sampled_from(["array", "list"])), quick=500,
       rule="some points removed, some left")
def subset(c, ev):
    g = rng(c["seed"])
    # neighbours that only rounding could take for one another
    p = np.round(g.uniform(0, 20, (c["n"], 2)) * 0.1 ** c["fine"] * 3
                 if c["fine"] else g.uniform(0, 20, (c["n"], 2)),
                 min(c["fine"] + 1, 15))
    if not c["dup"]:
        p = p + np.arange(c["n"])[:, None] * 100
    sel = p[g.permutation(c["n"])[:c["k"] % (c["n"] + 1)]]
    sel = np.concatenate((sel, np.full((c["stray"], 2), -7.5)))
    out = {tuple(v) for v in sel}
    want = [v for v in p if tuple(v) not in out]
    a, b = (sel.tolist(), p.tolist()) if c["form"] == "list" else (sel, p)
    got = np.asarray(prep.remove_subset_points(a, b))
    need(len(got) == len(want), "%d points left, %d expected", len(got),
         len(want))
    if want:
        close(got, np.array(want), 0, "points left")
    ev.nontrivial(0 < len(want) < c["n"])
