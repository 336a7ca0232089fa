"""C04 forward image unwarping moves every pixel to where the model puts it."""
from vlib import *
from checks.common import *
import discorpy.post.postprocessing as post

P = Prop("C04")

base = dict(h=st.integers(1, 40), w=st.integers(1, 40), seed=seeds,
            dtype=st.sampled_from(DTYPES), fx=centers, fy=centers,
            k0=st.one_of(st.just(1.0), q(0.6, 1.5, 0.05)),
            rel=rel_terms(0, 4, 0.3), below=st.booleans())


@P.sub(fixed(**base), quick=1500, shards=2,
       rule="some pixel moves by at least one pixel")
def scatter_is_valid(c, ev):
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    # every pixel carries its own non-zero value
    n = h * w
    dt = np.dtype(c["dtype"])
    vals = rng(c["seed"]).permutation(n) + 1
    if dt == np.uint8:
        vals = vals % 255 + 1
    elif c["below"] and dt.kind != "u":
        vals = vals - n // 2
        vals[vals <= 0] -= 1
    mat = vals.reshape(h, w).astype(dt)
    out = arr(post.unwarp_image_forward(mat, xc, yc, fact), (h, w))
    need(out.dtype == mat.dtype, "dtype changed")
    yy, xx = np.mgrid[0:h, 0:w].astype(np.float64)
    f = factor(np.hypot(xx - xc, yy - yc), fact)
    yt = np.clip(yc + f * (yy - yc), 0, h - 1)
    xt = np.clip(xc + f * (xx - xc), 0, w - 1)
    eps = 1e-6
    cand = {}
    sure = set()
    for i in range(h):
        for j in range(w):
            ys = {int(np.round(yt[i, j] - eps)), int(np.round(yt[i, j] + eps))}
            xs = {int(np.round(xt[i, j] - eps)), int(np.round(xt[i, j] + eps))}
            for a in ys:
                for b in xs:
                    cand.setdefault((a, b), set()).add(mat[i, j].item())
            if len(ys) == 1 and len(xs) == 1:
                sure.add((ys.pop(), xs.pop()))
    for i in range(h):
        for j in range(w):
            v = out[i, j].item()
            if (i, j) in sure:
                need(v in cand[(i, j)], "pixel (%d, %d) holds %r, which no "
                     "pixel mapped there has (%s)", i, j, v,
                     sorted(cand[(i, j)])[:5])
            else:
                need(v == 0 or v in cand.get((i, j), ()),
                     "pixel (%d, %d) holds %r although nothing maps there",
                     i, j, v)
    ev.nontrivial(max(np.abs(yt - yy).max(), np.abs(xt - xx).max()) >= 1)
    ev.label("vacant pixels", len(cand) < n)
    ev.label("negative values", mat.min() < 0)
    ev.label("centre outside", not (0 <= xc < w and 0 <= yc < h))


@P.sub(fixed(extra=st.integers(0, 4), **base), quick=200,
       rule="image larger than one pixel")
def identity(c, ev):
    h, w = c["h"], c["w"]
    mat = image("noise", h, w, c["seed"], c["dtype"])
    out = arr(post.unwarp_image_forward(
        mat, c["fx"] * w, c["fy"] * h, [1.0] + [0.0] * c["extra"]), (h, w))
    need(np.array_equal(out, mat), "the identity model changed the image")
    ev.nontrivial(h * w > 1)


@P.sub(fixed(n=st.integers(33000, 70000), m=st.integers(1, 2),
             tall=st.booleans(), k=q(0.9, 1.0, 0.01)), quick=20, thorough=100,
       rule="a side longer than 32767 pixels")
def long_images(c, ev):
    h, w = (c["n"], c["m"]) if c["tall"] else (c["m"], c["n"])
    mat = (np.arange(h)[:, None] + np.arange(w)[None, :] + 1.0)
    out = arr(post.unwarp_image_forward(mat, 0.0, 0.0, [c["k"]]), (h, w))
    pos = np.arange(h)[:, None] + np.arange(w)[None, :]
    got = out > 0
    err = np.abs(c["k"] * (out - 1) - pos)
    need(np.all(err[got] <= 1.5), "a pixel of a long image went to the wrong "
         "place (off by %s)", err[got].max())
    need(got.sum() >= 0.85 * c["n"], "most of a long image was lost")
    ev.nontrivial()
