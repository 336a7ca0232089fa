"""C06 conversion of coefficients between backward and forward models."""
from vlib import *
from checks.common import *
import discorpy.proc.processing as proc

P = Prop("C06")

dirs = st.sampled_from(["backward", "forward", None])


def call(fact, mapping, ref=None):
    kw = {}
    if mapping is not None:
        kw["mapping"] = mapping
    if ref is not None:
        kw["ref_points"] = ref
    return proc.transform_coef_backward_and_forward(fact, **kw)


def best_fit(r, fact):
    """Least-squares inverse polynomial on the images of the radii r, in a
    well-scaled basis; returns its values there."""
    F = factor(r, fact)
    ro = F * r
    s = max(np.max(np.abs(ro)), 1e-12)
    A = (ro / s)[:, None] ** np.arange(len(fact))
    c = np.linalg.lstsq(A, 1.0 / F, rcond=None)[0]
    return ro, 1.0 / F, A @ c


@P.sub(fixed(rel=mono_terms(0, 4, 0.6), k0=q(0.7, 1.4, 0.05), mapping=dirs,
             R=st.sampled_from([30, 300, 1500]), n=st.integers(8, 60),
             seed=seeds, form=st.sampled_from(["list", "array", "tuples"]),
             given=st.sampled_from([True, True, False]), as_arr=st.booleans()),
       quick=700, shards=3, rule="the model has at least one radial term")
def least_squares_inverse(c, ev):
    R = 1415.0 if not c["given"] else float(c["R"])
    fact = model(c["rel"], R, c["k0"])
    if c["given"]:
        g = rng(c["seed"])
        t, r = g.random(c["n"]) * 2 * np.pi, R * np.sqrt(g.random(c["n"]))
        pts = np.column_stack((r * np.sin(t), r * np.cos(t)))
        ref = {"list": pts.tolist(), "array": pts,
               "tuples": [tuple(p) for p in pts]}[c["form"]]
        rad = np.hypot(pts[:, 0], pts[:, 1])
    else:
        ref = None
        a = np.arange(-1000, 1000, 50)
        yy, xx = np.meshgrid(a, a)
        rad = np.hypot(yy, xx).ravel()
    inv = arr(call(np.asarray(fact) if c["as_arr"] else fact, c["mapping"],
                   ref), (len(fact),), "inverse coefficients")
    ro, y, fit = best_fit(rad, fact)
    got = factor(ro, inv)
    # the fitted values are unique; the coefficients are ill-conditioned
    ss_best, ss = np.sum((fit - y) ** 2), np.sum((got - y) ** 2)
    need(np.sqrt(ss / len(y)) <= np.sqrt(ss_best / len(y)) * 1.02 + 2e-6,
         "the inverse is not the best fit: rms %g, possible %g",
         np.sqrt(ss / len(y)), np.sqrt(ss_best / len(y)))
    # and so points go there and back as well as the best fit allows
    back = ro * got
    best = np.max(np.abs(ro * fit - rad))
    need(np.max(np.abs(back - rad)) <= best * 1.1 + 5e-5 * R,
         "round trip misses by %g px, the best inverse by %g px",
         np.max(np.abs(back - rad)), best)
    ev.nontrivial(len(fact) > 1 and any(c["rel"]))
    ev.label("default points", ref is None)
    ev.label("accurate inverse (<0.1 px)", best < 0.1)


@P.sub(fixed(k=q(0.4, 2.5, 0.01), extra=st.integers(0, 4), mapping=dirs),
       quick=150, rule="k is not 1")
def pure_magnification_inverts_exactly(c, ev):
    inv = arr(call([c["k"]] + [0.0] * c["extra"], c["mapping"]),
              (1 + c["extra"],))
    r = np.linspace(0, 1400, 50)
    close(factor(r, inv), np.full(50, 1.0 / c["k"]), 1e-6, "inverse factor")
    ev.nontrivial(c["k"] != 1.0)


@P.sub(fixed(e=q(-0.06, 0.06, 0.002), e2=q(-0.04, 0.04, 0.002),
             mapping=dirs, nco=st.integers(3, 5), R=st.sampled_from(
                 [100, 700, 2000])), quick=300, shards=2,
       rule="a correction of at least 1% at the edge")
def round_trip_of_points(c, ev):
    """Mild lens: there and back again within 0.5% of the displacement plus a
    hundredth of a pixel per 1000 px; twice inverted gives the first model."""
    R = float(c["R"])
    fact = [1.0, c["e"] / R, c["e2"] / R ** 2] + [0.0] * (c["nco"] - 3)
    a = np.linspace(-R / 1.42, R / 1.42, 21)
    ref = [[y, x] for y in a for x in a]
    inv = arr(call(fact, c["mapping"], ref), (len(fact),))
    r = np.linspace(0, R / 1.01, 200)
    moved = r * factor(r, fact)
    back = moved * factor(moved, inv)
    disp = np.max(np.abs(moved - r))
    lim = 0.06 * disp + 2e-4 * R
    need(np.max(np.abs(back - r)) <= lim, "there and back again misses by %g "
         "px (limit %g)", np.max(np.abs(back - r)), lim)
    ev.nontrivial(disp >= 0.01 * R)


@P.sub(fixed(nco=st.integers(2, 6), short=st.integers(1, 3), mapping=dirs),
       quick=60, rule="every case (too few reference points)")
def too_few_points_are_refused(c, ev):
    n = max(0, c["nco"] - c["short"])
    ref = [[10.0 * i, 5.0 * i] for i in range(n)]
    raises(ValueError, call, [1.0] + [1e-4] * (c["nco"] - 1), c["mapping"],
           ref)
    ref = [[10.0 * i + 1, 5.0 * i] for i in range(c["nco"])]
    arr(call([1.0] + [1e-9] * (c["nco"] - 1), c["mapping"], ref),
        (c["nco"],))
    ev.nontrivial()
