"""Process bootstrap: fixed interpreter environment and the seams that must be
in place *before* the library under test is imported.

`ensure_env()` re-executes the interpreter once with a fixed environment (hash
seed, single-threaded BLAS, no byte-code files).  `load()` imports the library
from $WELLENG_REPO (default /repo) with a lock factory seam: every lock the
library itself creates is a scheduler-aware `SimLock`, so that a lock taken by
a parked simulated thread can never block the whole simulation.
"""
import os
import sys
import threading

REPO = os.environ.get("WELLENG_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "welleng") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

FIXED_ENV = {
    "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "TZ": "UTC",
}


def ensure_env(hashseed="0"):
    if os.environ.get("SIM_ZYGOTE"):
        return
    want = dict(FIXED_ENV, PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", hashseed))
    if all(os.environ.get(k) == v for k, v in want.items()) and \
            os.path.realpath(sys.prefix) == os.path.realpath("/opt/venv"):
        return
    os.environ.update(want)
    os.execv(PY, [PY, "-W", "ignore"] + sys.argv)


_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock


def _from_lib():
    f = sys._getframe(2)
    return os.path.realpath(f.f_code.co_filename).startswith(PKG)


_loaded = None


def load():
    """Import the library (idempotent) and return the `welleng` package."""
    global _loaded
    if _loaded is not None:
        return _loaded
    from . import sched

    def lock():
        return sched.SimLock() if _from_lib() else _REAL_LOCK()

    def rlock():
        return sched.SimLock(reentrant=True) if _from_lib() else _REAL_RLOCK()

    from . import fsim
    fsim.install()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    # third-party packages first: only the library itself sees the seams
    import numpy, scipy, scipy.optimize, scipy.spatial.transform  # noqa
    import pandas, yaml, networkx, pyproj, openpyxl, trimesh  # noqa
    import magnetic_field_calculator  # noqa
    try:
        import vedo, fcl, pint  # noqa
    except ImportError:
        pass
    from . import clock, net
    clock.install()
    net.install()
    threading.Lock, threading.RLock = lock, rlock
    import warnings
    warnings.simplefilter("ignore")
    import welleng
    import welleng.architecture, welleng.clearance, welleng.connector  # noqa
    import welleng.error, welleng.errors.tool_errors, welleng.exchange.wbp  # noqa
    import welleng.exchange.edm, welleng.fluid, welleng.io, welleng.mesh  # noqa
    import welleng.node, welleng.survey, welleng.target, welleng.torque_drag  # noqa
    import welleng.errors.iscwsa_ingest, welleng.exchange.csv  # noqa
    # the rest too: a simulated thread parked inside an import would hold the
    # interpreter's import lock
    import importlib
    import pkgutil
    for m in pkgutil.walk_packages(welleng.__path__, "welleng."):
        if ".extract_" not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:                            # noqa  (optional dependency)
                pass
    if not os.path.realpath(welleng.__file__).startswith(PKG):
        raise RuntimeError(f"welleng imported from {welleng.__file__}")
    sched.find_withs()
    _loaded = welleng
    return welleng
