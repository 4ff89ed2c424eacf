"""Another interpreter: its own hash seed, environment and address space. It imports the library, waits on a
socket and executes each request in a forked child, so every request meets the same pristine process."""
import os, sys, socket, struct, pickle, subprocess, time, signal

DIR = None
LIVE = {}


def _recv(c):
    h = b""
    while len(h) < 8:
        d = c.recv(8 - len(h))
        if not d:
            return None
        h += d
    n = struct.unpack(">Q", h)[0]
    out = bytearray()
    while len(out) < n:
        d = c.recv(min(1 << 20, n - len(out)))
        if not d:
            return None
        out += d
    return bytes(out)


def _send(c, b):
    c.sendall(struct.pack(">Q", len(b)) + b)


def path(h):
    from . import env
    return os.path.join(DIR or env.SCRATCH, "zy%d" % h)


def start(hashseeds):
    """Called once by the driver, before any run is forked."""
    from . import env
    global DIR
    DIR = env.SCRATCH
    for h in hashseeds:
        if h in LIVE:
            continue
        e = dict(os.environ)
        e.update(PYTHONHASHSEED=str(h), DST_ENV="1", DST_SOCKET=path(h), DST_SCRATCH_BASE=env.SCRATCH, TZ=["UTC", "Asia/Tokyo", "America/Lima"][h % 3], COLUMNS=str(60 + h % 70), DST_PARENT=str(os.getpid()), DST_ZY="z" * (h % 997))
        LIVE[h] = subprocess.Popen([sys.executable, "-X", "faulthandler", os.path.join(env.VERIF, "check.py"), "--zygote"], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                   stderr=None if os.environ.get("DST_DEBUG") else subprocess.DEVNULL, cwd=env.SCRATCH)
    end = time.time() + 240
    for h in hashseeds:
        while not os.path.exists(path(h) + ".ready"):
            if LIVE[h].poll() is not None or time.time() > end:
                raise RuntimeError("the interpreter with hash seed %d did not start" % h)
            time.sleep(0.05)


def stop():
    for p in LIVE.values():
        p.kill()
        p.wait()
    LIVE.clear()


def ask(h, request):
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(300)
    c.connect(path(h))
    _send(c, pickle.dumps(request))
    b = _recv(c)
    c.close()
    if b is None:
        raise RuntimeError("the other interpreter died")
    kind, v = pickle.loads(b)
    if kind == "err":
        raise RuntimeError("in the other interpreter: " + v)
    return v


def serve():
    """Main loop of the other interpreter."""
    import importlib, ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)          # ends with its parent
    p = os.environ["DST_SOCKET"]
    s = socket.socket(socket.AF_UNIX)
    s.bind(p)
    s.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    importlib.import_module("dst.scen.c11")
    open(p + ".ready", "w").close()
    while True:
        c, _ = s.accept()
        if os.fork() == 0:
            s.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                try:
                    out = ("ok", importlib.import_module("dst.scen.c11").elsewhere(pickle.loads(_recv(c))))
                except BaseException as e:
                    import traceback
                    out = ("err", "".join(traceback.format_exception(e))[-3000:])
                _send(c, pickle.dumps(out))
                c.close()
            finally:
                os._exit(0)
        c.close()
