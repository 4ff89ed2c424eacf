"""C05: saving to a failing disk is never silently wrong."""
import builtins, hashlib, io, os
import numpy as np
from .. import core, disk, edits as ed, registry as R, sched, snap
from ..core import Violation
from .c04 import STEP, saver, tree

RUNS = {"quick": 12000, "thorough": 240000}
RULE = ("seeded plan: 1-8 saves (pickle, wav, flac; every savable class), loads, edits and loads of truncated files on a simulated disk that fails at seeded system calls and byte offsets: "
        "errors on open, write, read, close, sync or rename, a full disk, short transfers, interrupted calls, death of the process inside a call, failing calls into pickle and soundfile; a model keeps which versions "
        "each file may hold and every load is compared with them; non-trivial = at least one fault was met by a save or load")
KEYRULE = "class x format x system call and error (or fault) met x outcome"
REAL = ["all save_* and load functions of dsptoolbox", "CPython file objects, pickle, soundfile and libsndfile above the system calls", "a real file below the simulated disk"]
STUB = ["open, read, write, close, sync, truncate, rename and unlink for files in the scratch directory fail, transfer partially or kill the process where the plan says (preloaded shim below Python and libsndfile)"]
ASSUMPTIONS = ["a fault is reported by the system call or kills the process; bytes that were acknowledged are not lost or changed behind its back", "an audio file cut short from outside is not detected (only pickles carry their end)"]
SHRINK = 200
ON = ["s0", "s1", "cs", "ir0", "ir1", "mbs", "mbm", "sp0", "spc", "fi", "f2", "fb", "fbm", "lr", "gt"]
AUD = ("s0", "s1", "cs", "ir0", "ir1")
WFAULT = [("openw", "ENOSPC"), ("openw", "EACCES"), ("openw", "EMFILE"), ("write", "EIO"), ("write", "ENOSPC"), ("write", "EINTR"), ("write", "EDQUOT"), ("close", "EIO"), ("close", "ENOSPC"), ("sync", "EIO"), ("meta", "EIO")]
READERS = ["Signal.from_file", "Signal.from_file", "Signal", "ImpulseResponse", "ImpulseResponse.from_file", "add_channel", "Filter", "FilterBank"]
RFAULT = [("openr", "EACCES"), ("openr", "ENOENT"), ("openr", "EMFILE"), ("read", "EIO"), ("read", "EIO"), ("read", "EINTR"), ("close", "EIO")]


def gen_faults(r, table, crash):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        o, e = r.choice(table)
        x = r.random()
        if crash and x < 0.25:
            out.append([r.choice(["openw", "write", "write", "write", "close"]), round(r.random(), 4), disk.CRASH, r.choice([0, 137, 500, 1000])])
        elif x < 0.4 and o in ("read", "write"):
            out.append([o, round(r.random(), 4), disk.SHORT, r.choice([1, 100, 500, 900])])
        else:
            out.append([o, round(r.random(), 4), disk.ERR, e])
    return out


def generate(r, tier):
    w = R.gen_world(r)
    w["n"] = core.loguniform(r, 150, 6000) if r.random() < 0.4 else core.loguniform(r, 20000, 120000) if r.random() < 0.1 else w["n"]
    big = w["n"] > 15000
    objs = [r.choice(AUD + ("sp0", "spc") if big else ON) for _ in range(r.choice([1, 2, 3]))]
    steps = []
    have = []
    for _ in range(r.choice([1, 2, 4, 8])):
        t = r.choice(objs)
        x = r.random()
        nm = r.choice(["a", "b", "d/c"])
        if x < 0.55:
            fmt = "pkl" if t not in AUD or r.random() < (0.15 if big else 0.45) else r.choice(["wav", "flac"])
            have.append((nm, fmt))
            st = dict(save=t, fmt=fmt, name=nm, ext=r.random() < 0.5, bits=r.choice([16, 24]) if fmt == "flac" else r.choice([16, 24, 32, 64]), retry=r.random() < 0.6)
            y = r.random()
            if y < 0.5:
                st["faults"] = gen_faults(r, WFAULT, r.random() < 0.5)
            elif y < 0.72:
                st["quota"] = r.choice([0.0, round(r.random(), 4), round(r.random(), 4), 0.999])
            elif y < 0.8:
                st["py"] = [round(r.random(), 3), r.choice(["OSError", "InterruptedError", "TimeoutError", "MemoryError", "KeyboardInterrupt"])]
            elif y < 0.86:
                st["bad"] = r.choice(["nodir", "isdir", "ext", "bits"])
        elif x < 0.75:
            nm, fmt = r.choice(have) if have and r.random() < 0.85 else (nm, r.choice(["pkl", "wav", "flac"]))
            st = dict(load=nm, fmt=fmt, ext=r.random() < 0.5, by=r.choice(READERS))
            if r.random() < 0.7:
                st["faults"] = gen_faults(r, RFAULT, False)
        elif x < 0.85:
            st = dict(torn=nm, at=r.choice([0.0, round(r.random(), 4), round(r.random(), 4), 0.9999]), back=r.choice([0, 0, 1, 2, 3]))
        else:
            good = [e for e in sorted(ed.EDITS) if t in ed.EDITS[e].on and not ed.EDITS[e].bad]
            if not good:
                continue
            st = ed.gen_edit(r, t, bad=False)
        steps.append(st)
        if "save" in st and r.random() < 0.6:
            steps.append(dict(load=st["name"], fmt=st["fmt"], ext=r.random() < 0.5, by=r.choice(READERS), faults=gen_faults(r, RFAULT, False) if big and r.random() < 0.7 else []))
    return dict(cfg=dict(world=w), steps=steps)


def digest(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


class Model:
    """What every file may hold: list of versions; `sure` when the last save of it succeeded."""

    def __init__(self):
        self.f = {}

    def saved(self, path, v):
        self.f[path] = dict(sure=True, v=[v])

    def failed(self, path, v):
        self.f[path] = dict(sure=False, v=[v] + (self.f[path]["v"] if path in self.f else []))


def version(t, fmt, bits):
    if fmt == "pkl":
        return dict(cls=type(t).__name__, state=snap.freeze(t))
    return dict(x=np.array(t.time_data), fs=t.sampling_rate_hz, bits=bits)


def matches(v, o, fmt, prefix=False):
    if fmt == "pkl":
        return type(o).__name__ == v["cls"] and core.same(snap.freeze(o), v["state"], rtol=1e-12, atol=0) is None
    x, y, fs, scaled = v["x"], o.y, o.fs, o.scaled
    if prefix and y.shape[0] < x.shape[0]:
        x = x[:y.shape[0]]
    if fs != v["fs"] or x.shape != y.shape:
        return False
    if not len(x):
        return True
    peak = np.max(np.abs(x))
    if v["bits"] not in STEP and peak > 1 and scaled and np.max(np.abs(y)) <= 1 + 1e-6:
        x = x / peak
    if v["bits"] in STEP:
        x = np.clip(x, -1, 1)
        tol = 2.1 * STEP[v["bits"]]
    else:
        tol = 2.0 ** -23 * max(1, np.max(np.abs(x))) if v["bits"] == 32 else 1e-15
    return float(np.max(np.abs(x - y))) <= tol


def resolve(faults, counts):
    """Plan faults name a fraction of the calls an undisturbed attempt makes."""
    return [(o, 1 + int(fr * max(1, counts[o])), a, v) for o, fr, a, v in faults]


def execute(plan, ctx):
    import dsptoolbox as dsp
    d = R.D(dsp)
    w = plan["cfg"]["world"]
    W = R.World(dsp, w)
    base = os.path.join(ctx.scratch, "disk")
    dry = os.path.join(ctx.scratch, "dry")
    for p in (base, dry):
        os.makedirs(os.path.join(p, "d"))
    M = Model()
    for i, st in enumerate(plan["steps"]):
        if "save" in st:
            save(ctx, dsp, W, M, st, base, dry)
        elif "load" in st:
            load(ctx, dsp, M, st, base)
        elif "torn" in st:
            torn(ctx, dsp, M, st, base, dry)
        else:
            np.random.seed(core.derive(plan["seed"], i) % (1 << 31))
            _, e = ed.apply(d, W[st["t"]], st, w)
            ctx.log("edit", st["edit"], type(e).__name__ if e else None)
        ctx.sim_time += 0.01


def act(dsp, t, fmt, bits, path):
    if fmt == "pkl":
        return saver(dsp, t)(path)
    return t.save_signal(path, mode=fmt, bit_depth=bits)


def given(t, st, stem):
    if type(t).__name__ == "LRFilterBank":
        return stem
    return stem + ("." + st["fmt"] if st["ext"] else "")


def attempt(fn):
    try:
        fn()
        return None
    except BaseException as e:
        if isinstance(e, (Violation, SystemExit)):
            raise
        return e


def save(ctx, dsp, W, M, st, base, dry):
    t, fmt, bits = W[st["save"]], st["fmt"], st["bits"]
    if fmt != "pkl" and t.length_samples < max(2, t.number_of_channels):
        return
    what = f"{type(t).__name__} {fmt}"
    before = snap.freeze(t)
    v = version(t, fmt, bits)
    target = os.path.join(base, st["name"]) + "." + fmt
    others = {f: digest(f) for f in tree(base) if f != target}
    if "bad" in st:
        return bad_save(ctx, dsp, t, st, base, before, others)
    stem = os.path.join(base, st["name"])
    with disk.Disk(dry) as D0:
        act(dsp, t, fmt, bits, os.path.join(dry, "x") if type(t).__name__ == "LRFilterBank" else os.path.join(dry, "x." + fmt))
    faults = resolve(st.get("faults", []), D0.counts)
    quota = None if "quota" not in st else int(st["quota"] * D0.bytes)
    f = None
    crashed = False
    if any(a == disk.CRASH for _, _, a, _ in faults):
        pid = os.fork()
        if pid == 0:
            with disk.Disk(base, faults, quota):
                e = attempt(lambda: act(dsp, t, fmt, bits, given(t, st, stem)))
            os._exit(0 if e is None else 1)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if code not in (0, 1, disk.CRASHED):
            raise RuntimeError("saving process ended with %d" % code)
        crashed = code == disk.CRASHED
        err = None if code == 0 else RuntimeError("in child")
        fired, site = code != 0, "process dies" if crashed else "other fault in child"
        if crashed:
            ctx.fault("process dies inside a system call")
    else:
        with disk.Disk(base, faults, quota) as D:
            if "py" in st:
                exc = getattr(builtins, st["py"][1])("injected")
                f = sched.Fault(1 + int(st["py"][0] * 2), exc)
                with f:
                    err = attempt(lambda: act(dsp, t, fmt, bits, given(t, st, stem)))
            else:
                err = attempt(lambda: act(dsp, t, fmt, bits, given(t, st, stem)))
        fired = bool(D.injected) or bool(f and f.fired)
        names = [f"{o} {x}" if a == disk.ERR else f"short {o}" for (o, _, a, x), hit in zip(faults, D.fired) if hit]
        if f and f.fired:
            names.append("external call fails: " + st["py"][1])
        if quota is not None and D.injected:
            names.append("disk full")
        for n in names:
            ctx.fault(n)
        site = "+".join(names)
        if err is not None and not fired:
            raise Violation("healthy-save-fails", f"{what}: {err!r} on a healthy disk", op=fmt)
        if D.open_fds:
            ctx.probe("descriptors left open")
    if fired:
        ctx.nontrivial = True
    x = core.same(snap.freeze(t), before, rtol=0, atol=0)
    if x:
        raise Violation("object-changed", f"{what}: the object changed during a save ({site or 'no fault'}): {x}", op=fmt)
    check_others(base, others, target, f"{what} ({site or 'no fault'})", allow_extra=crashed)
    ctx.key(what, site, "returned" if err is None else "crash" if crashed else "raised")
    ctx.log("save", what, site, err is None)
    if err is None:
        M.saved(target, v)
        verify(dsp, M, target, fmt, f"{what} returned although {site} was met" if site else what, "silent-loss" if fired else "not-equal")
    else:
        M.failed(target, v)
        loadable(dsp, M, target, fmt, f"{what} after {site}")
        if st["retry"]:
            e = attempt(lambda: act(dsp, t, fmt, bits, given(t, st, stem)))
            if e is not None:
                raise Violation("retry-fails", f"{what}: {e!r} when saved again after {site}", op=fmt)
            M.saved(target, v)
            verify(dsp, M, target, fmt, f"{what} saved again after {site}", "not-equal")
            check_others(base, others, target, what, allow_extra=crashed)


def bad_save(ctx, dsp, t, st, base, before, others):
    fmt, stem = st["fmt"], os.path.join(base, st["name"])
    bits = st["bits"]
    if st["bad"] == "nodir":
        path = os.path.join(base, "nowhere", "x")
    elif st["bad"] == "isdir":
        path = os.path.join(base, "isdir." + fmt)
        os.makedirs(path, exist_ok=True)
        if type(t).__name__ == "LRFilterBank":
            path = path[:-4]
    elif st["bad"] == "ext" or fmt == "pkl":
        path = stem + ".xyz"
    else:
        path, bits = stem + "_bits", 12
    e = attempt(lambda: act(dsp, t, fmt, bits, path))
    if e is None:
        if st["bad"] in ("nodir", "isdir"):
            raise Violation("silent-loss", f"saving {type(t).__name__} to {os.path.relpath(path, base)} returned without a file", op=fmt)
        ctx.probe("odd path accepted")
        for f in tree(base) - set(others):
            os.unlink(f)
    else:
        ctx.fault("unusable target")
    if core.same(snap.freeze(t), before, rtol=0, atol=0):
        raise Violation("object-changed", f"{fmt}: the object changed in a rejected save", op=fmt)
    check_others(base, others, stem + "." + fmt, f"rejected save ({st['bad']})")
    ctx.log("bad", st["bad"], type(e).__name__ if e else None)


def check_others(base, others, target, what, allow_extra=False):
    now = tree(base)
    for f, h in others.items():
        if f not in now:
            raise Violation("other-file-touched", f"{what}: {os.path.relpath(f, base)} is gone", op="files")
        if digest(f) != h:
            raise Violation("other-file-touched", f"{what}: {os.path.relpath(f, base)} changed", op="files")
    extra = now - set(others) - {target}
    if allow_extra:
        for f in extra:
            os.unlink(f)
    elif extra:
        raise Violation("other-file-touched", f"{what}: left {sorted(os.path.relpath(f, base) for f in extra)} behind", op="files")


class Take:
    """What a reader of an audio file gave: samples, rate, and whether the class may scale what exceeds full scale."""

    def __init__(self, y, fs, scaled):
        self.y, self.fs, self.scaled = y, fs, scaled


def read(dsp, path, fmt, ext=True, by="Signal.from_file"):
    if fmt == "pkl":
        return dsp.standard.load_pkl_object(path if ext else path[:-4])
    if by == "Filter":
        f = dsp.Filter.fir_from_file(path)
        fb = dsp.FilterBank.firs_from_file(path)
        y = np.stack([g.ba[0] for g in fb], axis=1)
        if not np.array_equal(f.ba[0], y[:, 0]):
            raise Violation("wrong-load", "the filter read from a file is not the first of the bank read from it", op=fmt)
        return Take(y, f.sampling_rate_hz, True)
    if by == "FilterBank":
        fb = dsp.FilterBank.firs_from_file(path)
        return Take(np.stack([g.ba[0] for g in fb], axis=1), fb.sampling_rate_hz, True)
    if by == "add_channel":
        import soundfile as sf
        with open(path, "rb") as f:
            h = sf.info(io.BytesIO(f.read()))
        s = dsp.Signal(None, np.zeros((h.frames, 1)), h.samplerate)
        try:
            s.add_channel(path)
        except BaseException:
            if s.number_of_channels != 1 or s.length_samples != h.frames:
                raise Violation("object-changed", "a failed add_channel(path) changed the signal", op=fmt)
            raise
        return Take(s.time_data[:, 1:], s.sampling_rate_hz, False)
    C = getattr(dsp, by.split(".")[0])
    o = C.from_file(path) if "." in by else C(path)
    return Take(o.time_data, o.sampling_rate_hz, by.startswith("Impulse"))


def verify(dsp, M, path, fmt, what, kind):
    """A save that returned: the file loads on a healthy disk and equals the object."""
    try:
        o = read(dsp, path, fmt)
    except Exception as e:
        raise Violation(kind, f"{what}: the file does not load: {type(e).__name__}", op=fmt)
    if not matches(M.f[path]["v"][0], o, fmt):
        raise Violation(kind, f"{what}: the loaded object is not the saved one", op=fmt)


def loadable(dsp, M, path, fmt, what):
    """A save that raised or died: what the file holds raises or is a version that was saved."""
    if not os.path.exists(path):
        return
    try:
        o = read(dsp, path, fmt)
    except Exception:
        return
    if fmt != "pkl" and o.y.shape[0] <= 2 * max(v["x"].shape[1] for v in M.f[path]["v"]):
        return
    if not any(matches(v, o, fmt, prefix=True) for v in M.f[path]["v"]):
        raise Violation("torn-load", f"{what}: the torn file loads as a {type(o).__name__} that was never saved", op=fmt)


def load(ctx, dsp, M, st, base):
    fmt = st["fmt"]
    path = os.path.join(base, st["load"]) + "." + fmt
    m = M.f.get(path)
    if m is None:
        return
    if fmt != "pkl" and not m["sure"]:
        return
    counts = None
    if st.get("faults"):
        with disk.Disk(base) as D0:
            attempt(lambda: read(dsp, path, fmt, st["ext"], st["by"]))
        counts = D0.counts
    h = digest(path) if os.path.exists(path) else None
    faults = resolve(st.get("faults", []), counts)
    got = []
    with disk.Disk(base, faults) as D:
        err = attempt(lambda: got.append(read(dsp, path, fmt, st["ext"], st["by"])))
    names = [f"{o} {x}" if a == disk.ERR else f"short {o}" for (o, _, a, x), hit in zip(faults, D.fired) if hit]
    for n in names:
        ctx.fault("load: " + n)
    site = "+".join(names)
    if err is None:
        if not any(matches(v, got[0], fmt) for v in m["v"]):
            raise Violation("wrong-load", f"{fmt}: loaded object is not a saved one ({site or 'no fault'})", op=fmt)
    elif not names and m["sure"]:
        raise Violation("healthy-load-fails", f"{fmt}: {err!r}", op=fmt)
    if h is not None and digest(path) != h:
        raise Violation("other-file-touched", f"{fmt}: loading changed the file", op="files")
    if names:
        ctx.nontrivial = True
        if m["sure"]:
            verify(dsp, M, path, fmt, f"load after a load that met {site}", "not-equal")
    ctx.key("load", fmt, st["by"] if fmt != "pkl" else "", site, err is None)
    ctx.log("load", fmt, st["by"], site, err is None)


def torn(ctx, dsp, M, st, base, dry):
    path = os.path.join(base, st["torn"]) + ".pkl"
    m = M.f.get(path)
    if m is None or not m["sure"]:
        return
    data = open(path, "rb").read()
    n = len(data) - st["back"] if st["back"] else int(st["at"] * len(data))
    p = os.path.join(dry, "torn.pkl")
    with open(p, "wb") as f:
        f.write(data[:n])
    try:
        o = read(dsp, p, "pkl")
    except Exception:
        o = None
    if o is not None and not matches(m["v"][0], o, "pkl"):
        raise Violation("torn-load", f"a pickle cut at byte {n} of {len(data)} loads as another object", op="pkl")
    ctx.fault("truncated file")
    ctx.nontrivial = True
    ctx.log("torn", n, o is None)
