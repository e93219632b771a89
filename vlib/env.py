"""Process set-up: import the package under test from the repository's working tree."""
import os
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = os.environ.get("VERIF_THREADS", "1")
import sys
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, SRC)

import numpy as np  # noqa: E402

# ---------------------------------------------------------------------------------------------
# Bounds monitor ("address sanitizer" for strided views). Installed before the package is imported,
# so that `from numpy.lib.stride_tricks import as_strided` in the package binds the monitored version.
# ---------------------------------------------------------------------------------------------
STRIDE_EVENTS = {"views": 0, "writable": 0, "out_of_bounds": []}


def _byte_bounds(a):
    lo = hi = a.__array_interface__["data"][0]
    for n, s in zip(a.shape, a.strides):
        if n == 0:
            return lo, lo
        if s < 0:
            lo += (n - 1) * s
        else:
            hi += (n - 1) * s
    return lo, hi + a.itemsize


def _root(a):
    while isinstance(getattr(a, "base", None), np.ndarray):
        a = a.base
    return a


def _install_stride_monitor():
    import numpy.lib.stride_tricks as st
    orig = st.as_strided

    def as_strided(x, *args, **kw):
        view = orig(x, *args, **kw)
        STRIDE_EVENTS["views"] += 1
        root = _root(np.asarray(x))
        lo, hi = _byte_bounds(view)
        rlo, rhi = _byte_bounds(root)
        if view.size and (lo < rlo or hi > rhi):
            STRIDE_EVENTS["out_of_bounds"].append(
                dict(shape=list(view.shape), strides=list(view.strides), before=int(rlo - lo), after=int(hi - rhi)))
            # Do not let the package corrupt our own process: hand out a private buffer instead.
            return np.zeros(view.shape, view.dtype)
        return view

    st.as_strided = as_strided
    try:
        np.lib.stride_tricks.as_strided = as_strided
    except Exception:
        pass


_install_stride_monitor()

import PythonicDISORT  # noqa: E402
from PythonicDISORT import subroutines as SUB  # noqa: E402

_home = os.path.realpath(PythonicDISORT.__file__)
assert _home.startswith(os.path.realpath(SRC) + os.sep), _home


def pydisort(*a, **k):
    return PythonicDISORT.pydisort(*a, **k)
