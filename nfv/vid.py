"""Coded frames that survive lossy codecs, and reading videos back."""
import numpy as np

BITS = 8


def coded(index, w, h, rng=None):
    """A frame that shows `index` as 4x2 black/white blocks."""
    f = np.zeros((h, w, 3), np.uint8)
    for b in range(BITS):
        r, c = divmod(b, 4)
        f[r * h // 2:(r + 1) * h // 2, c * w // 4:(c + 1) * w // 4] = 235 if (index >> b) & 1 else 20
    return f


def code(frame):
    h, w = frame.shape[:2]
    v = 0
    for b in range(BITS):
        r, c = divmod(b, 4)
        block = frame[r * h // 2 + h // 8:(r + 1) * h // 2 - h // 8, c * w // 4 + w // 16:(c + 1) * w // 4 - w // 16]
        if block.mean() > 128:
            v |= 1 << b
    return v


def write_video(path, frames, fps, fourcc="FFV1"):
    import cv2

    h, w = frames[0].shape[:2]
    v = cv2.VideoWriter(path, cv2.VideoWriter_fourcc(*fourcc), fps, (w, h))
    for f in frames:
        v.write(f)
    v.release()


def read_video(path):
    """(frames, fps) of a video file; frames is None if it cannot be opened."""
    import cv2

    c = cv2.VideoCapture(path)
    if not c.isOpened():
        return None, None
    fps = c.get(cv2.CAP_PROP_FPS)
    out = []
    while True:
        ok, f = c.read()
        if not ok or f is None:
            break
        out.append(f)
    c.release()
    return out, fps


def open_files():
    """Paths of the files this process has open."""
    import os

    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + fd))
        except OSError:
            pass
    return out


def laid_out(rng, f, hows=("window", "channels", "rows", "fortran", "readonly")):
    """The same picture in another memory layout."""
    how = rng.choice(hows)
    if how == "window":
        big = np.full((f.shape[0] + 9, f.shape[1] + 11) + f.shape[2:], 7, f.dtype)
        big[4:-5, 8:-3] = f
        out = big[4:-5, 8:-3]
    elif how == "channels":
        out = np.ascontiguousarray(f[..., ::-1])[..., ::-1]
    elif how == "rows":
        out = np.ascontiguousarray(f[::-1])[::-1]
    elif how == "fortran":
        out = np.asfortranarray(f)
    else:
        out = f.copy()
        out.setflags(write=False)
    assert np.array_equal(out, f)
    return out


def odd_file(rng, path, n):
    """Make the .avi file say it has another number of frames than it has, or cut it short."""
    import struct

    b = bytearray(open(path, "rb").read())
    if rng.random() < 0.4:
        b = b[: len(b) * 2 // 3]
    else:
        count = rng.choice([max(1, n // 2), n - 1, n + 1, 3 * n])
        struct.pack_into("<I", b, b.find(b"avih") + 8 + 16, count)
        struct.pack_into("<I", b, b.find(b"strh") + 8 + 32, count)
    with open(path, "wb") as fh:
        fh.write(b)
    return read_video(path)[0]
