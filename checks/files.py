"""Scratch directories for checks that save files."""
import contextlib
import os
import shutil
import tempfile

import matplotlib
matplotlib.use("Agg")


@contextlib.contextmanager
def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = os.path.realpath(tempfile.mkdtemp(prefix="dcv_", dir=base))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def listing(root):
    """path (relative) -> bytes, of every file below root."""
    out = {}
    for r, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out
