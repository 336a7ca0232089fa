"""C22 slope and spacing of a line pattern."""
from vlib import *
from checks.common import *
from checks.patterns import *
import discorpy.prep.linepattern as lp

P = Prop("C22")
ASSUMPTIONS = ["at least six lines inside the region of interest, pitch at "
               "least 22 pixels, lines 1 to 3 pixels wide (sigma)",
               "slope judged to 0.2 to 0.8 degree by the size of the region, "
               "spacing to 0.9 pixel; spacing "
               "under background normalization only for lines much narrower "
               "than the pitch"]

pat = dict(h=st.integers(220, 520), w=st.integers(220, 520), p=q(22, 44, 0.1),
           asp=q(0.85, 1.2), th=q(-24, 24, 0.1), sig=q(1.0, 3.0, 0.1),
           ox=q(0, 1), oy=q(0, 1), bright=st.booleans(),
           ratio=st.one_of(q(0.35, 0.9, 0.01), q(0.75, 0.95, 0.01)),
           seed=seeds)


def build(c, tv=None):
    return {"th": c["th"], "tv": -c["th"] if tv is None else tv,
            "ph": c["p"], "pv": c["p"] * c["asp"], "sig": c["sig"],
            "cx": c["ox"] * c["w"], "cy": c["oy"] * c["h"]}


def measure(m, kw):
    s1, d1 = lp.calc_slope_distance_hor_lines(m, **kw)
    s2, d2 = lp.calc_slope_distance_ver_lines(m, **kw)
    for v, n in ((s1, "slope"), (d1, "distance"), (s2, "slope"),
                 (d2, "distance")):
        need(np.ndim(v) == 0 and np.isfinite(v), "%s is %r", n, v)
    return (np.rad2deg(np.arctan(s1)), d1), (np.rad2deg(np.arctan(s2)), d2)


def judge(res, s, tdist=0.9, tang=0.8):
    for (a, d), wa, wd, n in ((res[0], s["th"], s["ph"], "horizontal"),
                              (res[1], s["tv"], s["pv"], "vertical")):
        need(abs(a - wa) <= tang, "%s lines at %.2f degree, measured %.2f", n,
             wa, a)
        if tdist:
            need(abs(d - wd) <= tdist, "%s lines %.2f pixels apart, measured "
                 "%.2f", n, wd, d)


@P.sub(fixed(**pat, norm=st.booleans(), denoise=st.booleans(),
             sub=st.booleans(), radius=st.integers(6, 11),
             more=q(2, 12, 0.5),
             gy=st.sampled_from([0, 0, 0, 0.3, -0.3, 0.1]),
             noise=st.sampled_from([0, 0, 1, 2, 4]),
             sens=st.sampled_from([0.1, 0.1, 0.04, 0.07, 0.15]),
             good=st.sampled_from([0, 0, 0, 0.5, 1.0]),
             dtype=st.sampled_from(["float64", "float32", "uint8"])),
       quick=160, shards=8, rule="tilted by more than half a degree, not "
                                 "square")
def pattern(c, ev):
    s = build(c)
    if c["ratio"] * min(c["h"], c["w"]) < 6.2 * max(s["ph"], s["pv"]):
        return
    lo, hi = (40.0, 200.0)
    m = lines(c["h"], c["w"], s, *((hi, lo) if c["bright"] else (lo, hi)))
    m = np.clip(shade(m, c["gy"] * 0.5, 0, c["noise"], c["seed"]), 0, 255)
    m = m.astype(c["dtype"])
    kw = dict(ratio=c["ratio"], norm=c["norm"], denoise=c["denoise"],
              subpixel=c["sub"], radius=c["radius"],
              search_range=float(np.ceil(abs(c["th"]) + c["more"])),
              sensitive=c["sens"], bgr="bright" if c["bright"] else "dark")
    if c["good"]:
        kw.update(select_peaks=True, tol=c["good"], use_offset=False)
    wide = np.hypot(c["sig"], 4.3 if c["denoise"] else 0.0)
    td = 0.9 if c["sub"] else 1.6
    if c["norm"] and min(s["ph"], s["pv"]) < 8 * wide:
        td = None
    # the angle is as good as the lines in the region are long
    ta = min(0.8, 0.35 + 60.0 / (0.92 * c["ratio"] * min(c["h"], c["w"])))
    judge(measure(m, kw), s, td, ta)
    ev.nontrivial(abs(c["th"]) > 0.5 and c["h"] != c["w"])
    ev.label("spacing judged", td is not None)


@P.sub(fixed(h=st.integers(430, 560), w=st.integers(430, 560),
             p=q(30, 44, 0.1), asp=q(0.9, 1.1), th=q(-24, 24, 0.1),
             sig=q(1.0, 2.5, 0.1), ox=q(0, 1), oy=q(0, 1),
             bright=st.booleans(), ratio=q(0.85, 0.95, 0.01),
             denoise=st.booleans()), quick=40, thorough=400, shards=8,
       rule="tilted by more than half a degree, not square")
def fine_angle(c, ev):
    """Long lines: the angle to a fraction of a degree."""
    s = build(c)
    lo, hi = (40.0, 200.0)
    m = lines(c["h"], c["w"], s, *((hi, lo) if c["bright"] else (lo, hi)))
    judge(measure(m, dict(ratio=c["ratio"], norm=False, search_range=26.0,
                          denoise=c["denoise"],
                          bgr="bright" if c["bright"] else "dark")), s, 0.7,
          0.2)
    ev.nontrivial(abs(c["th"]) > 0.5 and c["h"] != c["w"])


@P.sub(fixed(**pat, soft=q(0.5, 1.5, 0.1), denoise=st.booleans(),
             dtype=st.sampled_from(["float64", "float32"])), quick=80,
       shards=8, rule="tilted by more than half a degree")
def chessboard(c, ev):
    s = build(c)
    if c["ratio"] * min(c["h"], c["w"]) < 6.2 * max(s["ph"], s["pv"]):
        return
    if not c["denoise"] and (c["soft"] < 1 or c["p"] < 27):
        return
    m = board(c["h"], c["w"], s, soft=c["soft"]).astype(c["dtype"])
    kw = dict(ratio=c["ratio"], norm=False, denoise=c["denoise"],
              chessboard=True)
    judge(measure(m, kw), s, 1.2, 1.0)
    ev.nontrivial(abs(c["th"]) > 0.5)


@P.sub(fixed(**pat, norm=st.booleans()), quick=40, shards=4,
       rule="tilted by more than half a degree")
def transposed(c, ev):
    """Transposing the image exchanges the two directions."""
    s = build(c)
    if c["ratio"] * min(c["h"], c["w"]) < 6.2 * max(s["ph"], s["pv"]):
        return
    m = lines(c["h"], c["w"], s)
    kw = dict(ratio=c["ratio"], norm=False)
    (a1, d1), (a2, d2) = measure(m, kw)
    (b1, e1), (b2, e2) = measure(np.ascontiguousarray(m.T), kw)
    need(max(abs(a1 - b2), abs(a2 - b1)) <= 0.6, "angles %.2f, %.2f; of the "
         "transposed image %.2f, %.2f", a1, a2, b1, b2)
    need(max(abs(d1 - e2), abs(d2 - e1)) <= 0.6, "spacings %.2f, %.2f; of the "
         "transposed image %.2f, %.2f", d1, d2, e1, e2)
    ev.nontrivial(abs(c["th"]) > 0.5)


@P.sub(fixed(h=st.integers(60, 200), w=st.integers(60, 200),
             ph=q(14, 40, 0.5), pv=q(14, 40, 0.5), ox=q(0, 1), oy=q(0, 1),
             smooth=st.booleans(), bright=st.booleans(), sigma=q(1.0, 3, 0.5),
             th=q(-8, 8, 0.5), k=logq(0.01, 100)), quick=300,
       rule="always")
def convert(c, ev):
    """The lines of the converted board are its edges, and no others."""
    h, w = c["h"], c["w"]
    s = {"th": c["th"], "tv": -c["th"], "ph": c["ph"], "pv": c["pv"],
         "cx": c["ox"] * w, "cy": c["oy"] * h}
    m = c["k"] * board(h, w, s)
    got = np.float64(arr(lp.convert_chessboard_to_linepattern(
        m, smooth=c["smooth"], bgr="bright" if c["bright"] else "dark",
        sigma=c["sigma"]), (h, w), "line pattern"))
    need(abs(np.mean(np.abs(got)) - 1) < 1e-6, "mean level %.4f",
         np.mean(np.abs(got)))
    z = got.max() - got if c["bright"] else got     # lines are high
    y, x = np.mgrid[0:h, 0:w].astype(np.float64)
    uh, uv = coords(y, x, s)
    dh = np.abs(uh - c["ph"] * np.round(uh / c["ph"]))
    dv = np.abs(uv - c["pv"] * np.round(uv / c["pv"]))
    e = 8
    inner = np.zeros((h, w), bool)
    inner[e:h - e, e:w - e] = True
    # on an edge away from corners, and in the middle of squares
    on = inner & (((dh < 0.4) & (dv > 0.35 * c["pv"]))
                  | ((dv < 0.4) & (dh > 0.35 * c["ph"])))
    off = inner & (dh > 0.42 * c["ph"]) & (dv > 0.42 * c["pv"])
    near = np.minimum(dh, dv)
    if not on.any() or not off.any():
        return
    need(z[on].min() > 1.3 * z[off].max(), "an edge of the board has level "
         "%.4f, the middle of a square %.4f", z[on].min(), z[off].max())
    # across an edge, the level falls with the distance from it
    far = inner & (near > 5) & (dh > 0.35 * c["ph"]) & (dv > 0.35 * c["pv"])
    if far.any():
        need(z[on].min() > z[far].max(), "level off the edges %.4f, on the "
             "edges %.4f", z[far].max(), z[on].min())
    ev.nontrivial()
