"""C32 video: every frame of the stream is shown corrected, then it ends."""
from contextlib import contextmanager
from vlib import *
from checks.common import *
import discorpy.util.utility as util
import cv2

P = Prop("C32")
ASSUMPTIONS = ["the camera and the window are stand-ins: a fake capture "
               "object with the interface of cv2.VideoCapture, and recording "
               "replacements of cv2.imshow, waitKey and destroyAllWindows",
               "OpenCV interpolates at positions rounded to 1/32 px"]
METHODS = [None, "INTER_LINEAR", "INTER_NEAREST", "INTER_CUBIC"]
BORDERS = [None, "BORDER_CONSTANT", "BORDER_REPLICATE", "BORDER_REFLECT"]


class Camera:
    """A stream of frames; read number `fail` fails for good."""

    def __init__(self, frames, log, h, w):
        self.frames, self.log, self.h, self.w = list(frames), log, h, w
        self.pos = 0
        self.reads = 0
        self.open = True
        self.last = None

    def get(self, what):
        return {cv2.CAP_PROP_FRAME_WIDTH: float(self.w),
                cv2.CAP_PROP_FRAME_HEIGHT: float(self.h),
                cv2.CAP_PROP_FPS: 25.0}.get(what, 0.0)

    def isOpened(self):
        return self.open

    def grab(self):
        need(self.open, "the stream is read after it was released")
        self.reads += 1
        need(self.reads <= len(self.frames) + 50,
             "reading goes on after the end of the stream")
        if self.pos >= len(self.frames):
            self.last = None
            return False
        self.last = self.frames[self.pos].copy()
        self.pos += 1
        return True

    def retrieve(self, *a):
        return (self.last is not None), self.last

    def read(self, *a):
        self.grab()
        return self.retrieve()

    def release(self):
        self.log.append(("release", None))
        self.open = False


@contextmanager
def screen(log, keys):
    """Replaces the window functions of OpenCV by recorders."""
    keys = list(keys)

    def imshow(name, mat):
        log.append(("show", np.array(mat)))

    def wait(*a):
        log.append(("wait", None))
        n = sum(1 for t, _ in log if t == "show")
        return keys[n - 1] if 0 < n <= len(keys) else -1

    def gone(*a):
        log.append(("close", None))
    new = {"imshow": imshow, "waitKey": wait, "waitKeyEx": wait,
           "pollKey": wait, "destroyAllWindows": gone, "destroyWindow": gone,
           "namedWindow": lambda *a: None, "resizeWindow": lambda *a: None,
           "setWindowTitle": lambda *a: None,
           "getWindowProperty": lambda *a: 1.0}
    old = {k: getattr(cv2, k) for k in new if hasattr(cv2, k)}
    try:
        for k, f in new.items():
            setattr(cv2, k, f)
        yield
    finally:
        for k in new:
            if k in old:
                setattr(cv2, k, old[k])
            else:
                delattr(cv2, k)


def frames_of(c):
    """Smooth frames, each unlike the others; gradients up to 9 per px."""
    y, x = np.mgrid[0:c["h"], 0:c["w"]].astype(float)
    out = []
    for i in range(c["n"]):
        g = rng(c["seed"] + 7 * i)
        ch = []
        for _ in range(max(1, c["nch"])):
            a, b, p, s = g.uniform(0.05, 0.1), g.uniform(-0.1, 0.1), \
                6.28 * g.random(), g.uniform(40, 60)
            ch.append(np.uint8(128 + s * np.sin(a * y + b * x + p)))
        out.append(np.stack(ch, axis=2) if c["nch"] else ch[0])
    return out


pads = st.one_of(st.booleans(), st.integers(0, 9),
                 st.lists(st.integers(0, 9), min_size=4, max_size=4),
                 st.lists(st.sampled_from([0, 0, 4, 9]), min_size=4,
                          max_size=4))
base = dict(h=st.integers(8, 40), w=st.integers(8, 40), n=st.integers(0, 6),
            nch=st.sampled_from([0, 3, 3]), seed=seeds, fx=q(0.2, 0.8, 0.05),
            fy=q(0.2, 0.8, 0.05), rel=mono_terms(0, 4, 0.5), pad=pads,
            k0=q(0.8, 1.2, 0.05),
            quit=st.one_of(st.none(), st.integers(0, 7)),
            other=st.sampled_from([-1, 0, 13, 26, 28, 113]))


def play(c, frames, **kw):
    """Runs the player; returns what it showed and the log."""
    h, w = c["h"], c["w"]
    xc, yc = c["fx"] * w, c["fy"] * h
    fact = model(c["rel"], corner_radius(h, w, xc, yc), c["k0"])
    log = []
    cam = Camera(frames, log, h, w)
    keys = [c["other"]] * 60
    if c["quit"] is not None:
        keys[c["quit"]] = 27
    with screen(log, keys):
        r = util.unwarp_video_cv2(cam, xc, yc, fact, pad=c["pad"], **kw)
        if hasattr(r, "__iter__") and not isinstance(r, np.ndarray):
            for _ in r:          # documented as "Generator"
                pass
    return xc, yc, fact, [m for t, m in log if t == "show"], log, cam


@P.sub(fixed(**base), quick=500, shards=2,
       rule="at least two frames are due")
def every_frame_once_in_order(c, ev):
    """Shown = the frames received, corrected, up to the quit key."""
    frames = frames_of(c)
    xc, yc, fact, shown, log, cam = play(c, frames)
    due = len(frames) if c["quit"] is None else min(len(frames),
                                                    c["quit"] + 1)
    need(len(shown) == due, "%d frames shown of %d received before %s",
         len(shown), due, "the end" if due == len(frames) else "ESC")
    need(not cam.open, "the stream is not released")
    need(any(t == "close" for t, _ in log), "the window is not closed")
    need(cam.pos <= due + (due == len(frames)),
         "%d frames taken, %d shown", cam.pos, due)
    for i, (m, f) in enumerate(zip(shown, frames)):
        one = util.unwarp_image_backward_cv2(f, xc, yc, fact, pad=c["pad"])
        m = arr(m, one.shape, "frame %d" % i)
        d = np.abs(np.float64(m) - one)
        need(d.max() <= 2, "frame %d differs by %g from the image corrected "
             "alone", i, d.max())
        if not isinstance(c["pad"], bool) or c["pad"] is False:
            p = c["pad"] or 0
            t, b, l, r = (p,) * 4 if isinstance(p, int) else p
            big = np.pad(f, [(t, b), (l, r)] + [(0, 0)] * (f.ndim - 2))
            yd, xd = backward_coords(*big.shape[:2], xc + l, yc + t, fact)
            k = (i % 3,) if f.ndim == 3 else ()
            ref = bilinear(np.float64(big[(...,) + k]), yd, xd)
            # zeros of the margin have steep edges: judged inside
            ok = (xd >= l + 1) & (xd <= l + f.shape[1] - 2) \
                & (yd >= t + 1) & (yd <= t + f.shape[0] - 2)
            e = np.abs(np.float64(m[(...,) + k]) - ref)[ok]
            need(e.size == 0 or e.max() <= 2.5,
                 "frame %d differs by %g from the model", i,
                 e.max() if e.size else 0)
    ev.nontrivial(due >= 2)
    ev.label("quit", c["quit"] is not None and c["quit"] < c["n"])
    ev.label("empty stream", c["n"] == 0)
    ev.label("grey", c["nch"] == 0)


@P.sub(fixed(method=st.sampled_from(METHODS), border=st.sampled_from(BORDERS),
             pmode=st.sampled_from(["constant", "edge", "reflect",
                                    "symmetric"]), **base), quick=300,
       rule="at least one frame is due")
def options_reach_every_frame(c, ev):
    """Interpolation, border and pad mode work as for single images."""
    frames = frames_of(c)
    kw = dict(pad_mode=c["pmode"])
    if c["method"]:
        kw["method"] = getattr(cv2, c["method"])
    if c["border"]:
        kw["border"] = getattr(cv2, c["border"])
    xc, yc, fact, shown, log, cam = play(c, frames, **kw)
    for i, (m, f) in enumerate(zip(shown, frames)):
        one = util.unwarp_image_backward_cv2(f, xc, yc, fact, pad=c["pad"],
                                             **kw)
        m = arr(m, one.shape, "frame %d" % i)
        d = np.abs(np.float64(m) - one)
        # a position at a rounding tie may go to the other pixel
        need(np.mean(d > 2) <= 0.01, "%s %s %s: frame %d differs from the "
             "image corrected alone", c["method"], c["border"], c["pmode"], i)
    ev.nontrivial(len(shown) >= 1)
    ev.label("%s" % c["method"])
