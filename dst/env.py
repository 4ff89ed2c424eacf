"""Process environment: pin every process-level source of nondeterminism, then
import the library from /repo's working tree (never from a stale .pyc)."""
import os, sys, tempfile, warnings, atexit, shutil

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_FIX = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "NUMBA_DISABLE_JIT": "1", "NUMBA_NUM_THREADS": "1", "MPLBACKEND": "Agg"}


def reexec_if_needed():
    """Thread counts and the hash seed must be set before the interpreter starts."""
    if os.environ.get("DST_ENV") == "1":
        return
    e = dict(os.environ)
    for k, v in _FIX.items():
        if k == "PYTHONHASHSEED" and "DST_HASHSEED" in e:
            v = e["DST_HASHSEED"]
        e[k] = v
    e["DST_ENV"] = "1"
    if "C05" in [a.upper() for a in sys.argv] or "--selftest" in sys.argv:
        from . import disk          # file calls of Python and libsndfile go through the simulated disk
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        e["DST_PRELOAD_DIR"] = tempfile.mkdtemp(prefix="dst_so_", dir=base)
        so = os.path.join(e["DST_PRELOAD_DIR"], "simdisk.so")
        disk.build(so)
        e["LD_PRELOAD"] = so
    os.execve(sys.executable, [sys.executable, "-X", "faulthandler"] + sys.argv, e)


SCRATCH = None


def setup():
    global SCRATCH
    if os.environ.get("DST_PRELOAD_DIR"):
        os.environ.pop("LD_PRELOAD", None)
        shutil.rmtree(os.environ.pop("DST_PRELOAD_DIR"), ignore_errors=True)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    base = os.environ.get("DST_SCRATCH_BASE") or base
    SCRATCH = tempfile.mkdtemp(prefix="dst_", dir=base)
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(clean)
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(SCRATCH, "numba")
    os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    warnings.simplefilter("ignore")
    import numpy, scipy.signal, scipy.fft, matplotlib.pyplot, seaborn, soundfile, sounddevice  # noqa
    import scipy.integrate, scipy.interpolate, scipy.optimize, scipy.stats, scipy.io, scipy.spatial, numba  # noqa
    # library code is compiled afresh from the working tree, never taken from an old .pyc
    sys.pycache_prefix = os.path.join(SCRATCH, "pyc")
    from . import sched
    sched.install_lock_seam()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import importlib, pkgutil
    import dsptoolbox
    real = os.path.realpath(dsptoolbox.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("dsptoolbox not imported from %s but %s" % (REPO, real))
    for m in pkgutil.walk_packages(dsptoolbox.__path__, "dsptoolbox."):
        importlib.import_module(m.name)
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")
    return dsptoolbox
