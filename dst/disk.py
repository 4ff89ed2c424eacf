"""Simulated disk seam (dst/native/simdisk.c, preloaded): control from Python."""
import ctypes, errno, os

OPS = dict(openr=0, openw=1, read=2, write=3, close=4, sync=5, meta=6)
ERR, SHORT, CRASH = 0, 1, 2
CRASHED = 137


def build(to):
    import subprocess
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "simdisk.c")
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", to, src, "-ldl"], check=True)


def lib():
    L = ctypes.CDLL(None)
    if not hasattr(L, "simdisk_arm"):
        raise RuntimeError("the disk seam is not loaded")
    L.simdisk_arm.argtypes = [ctypes.c_char_p]
    L.simdisk_add.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
    L.simdisk_quota.argtypes = [ctypes.c_long]
    for f in ("count", "injected", "bytes"):
        getattr(L, "simdisk_" + f).restype = ctypes.c_long
    return L


class Disk:
    """Context: faults [(op, k, action, value)] and a quota apply to files under `base`."""

    def __init__(self, base, faults=(), quota=None):
        self.L, self.base, self.faults, self.quota = lib(), base, faults, quota

    def __enter__(self):
        self.L.simdisk_arm(self.base.encode())
        for o, k, a, v in self.faults:
            self.L.simdisk_add(OPS[o], k, a, v if isinstance(v, int) else getattr(errno, v))
        self.L.simdisk_quota(-1 if self.quota is None else self.quota)
        return self

    def __exit__(self, *a):
        self.counts = {o: self.L.simdisk_count(i) for o, i in OPS.items()}
        self.injected, self.bytes = self.L.simdisk_injected(), self.L.simdisk_bytes()
        self.fired = [bool(self.L.simdisk_fired(i)) for i in range(len(self.faults))]
        self.open_fds = self.L.simdisk_open_fds()
        self.L.simdisk_off()
        return False
