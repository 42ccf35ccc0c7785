"""Import norfair from the tree under test (never from a cache) and keep workers quiet."""
import os
import sys
import warnings

REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("OPENCV_LOG_LEVEL", "OFF")
os.environ.setdefault("OPENCV_VIDEOIO_DEBUG", "0")
os.environ.setdefault("OPENCV_FFMPEG_LOGLEVEL", "-8")

NEEDS_METRICS = True


class HarnessError(Exception):
    """A failure of the harness or its environment, never of the code under test."""


def load(metrics=False):
    """Import norfair from REPO, compiled from its source, and return it."""
    import logging

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    try:
        import cv2

        cv2.setNumThreads(1)
        import filterpy.kalman  # noqa: F401
        import numpy  # noqa: F401
        import rich.console  # noqa: F401
        import rich.progress  # noqa: F401
        import rich.table  # noqa: F401
        import scipy.spatial.distance  # noqa: F401
        import motmetrics  # noqa: F401
        import pandas  # noqa: F401
    except Exception as e:  # pragma: no cover
        raise HarnessError("cannot import the environment: %r" % (e,))
    if not os.path.isfile(os.path.join(REPO, "norfair", "__init__.py")):
        raise HarnessError("no norfair package in %s" % REPO)
    # norfair itself is always compiled from its source, so that a stale cache is never used
    sys.dont_write_bytecode = True
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-nfv-cache"
    sys.path.insert(0, REPO)
    try:
        import norfair
        import norfair.camera_motion  # noqa: F401
        import norfair.distances  # noqa: F401
        import norfair.drawing  # noqa: F401
        import norfair.filter  # noqa: F401
        import norfair.metrics  # noqa: F401
        import norfair.tracker  # noqa: F401
        import norfair.utils  # noqa: F401
        import norfair.video  # noqa: F401
    finally:
        sys.pycache_prefix = old
    root = os.path.dirname(os.path.abspath(norfair.__file__))
    if root != os.path.join(REPO, "norfair"):
        raise HarnessError("norfair was imported from %s instead of %s" % (root, REPO))
    return norfair
