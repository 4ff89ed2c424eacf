"""C04: checkpoint and restart: a saved object continues exactly where it was."""
import os, pickle, struct
import numpy as np
from .. import core, edits as ed, registry as R, sched, sigops as so, snap
from ..core import Violation

RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("seeded plan: one savable object (signal, impulse response, spectrum, multiband signal, filter, filter bank, Linkwitz-Riley or gammatone bank) lives through 2-14 edits, stream chunks and queries "
        "with checkpoints; the process really dies (forked process killed) at seeded points, also inside a save, and a pristine process loads the newest loadable checkpoint and repeats what followed it; "
        "every outcome of every life is compared with an uninterrupted life that never saves; audio files are written, read back and compared; non-trivial = a restart from a checkpoint took place")
KEYRULE = "operand class x operation executed after a restart x number of the life; audio: format x bit depth x class"
REAL = ["Signal, ImpulseResponse, Spectrum, MultiBandSignal, Filter, FilterBank, LRFilterBank, gammatone bank and every query on them", "pickle, soundfile/libsndfile on a real file system", "process death and restart (fork, _exit)"]
STUB = ["the moment of every crash is decided by the seed, at step boundaries or at an external call inside a save"]
ASSUMPTIONS = ["a crash loses memory only: files closed before it are durable (torn files are the subject of C05)",
               "samples beyond full scale are clipped by the integer formats, and the imaginary part of a signal is not stored in audio files"]
SHRINK = 160
ON = ["s0", "s1", "cs", "ir0", "ir1", "mbs", "mbir", "mbm", "sp0", "spc", "fi", "fi", "ff", "f2", "f2", "fb", "fb", "fbm", "lr", "lr", "gt"]
AUDIO = ("s0", "s1", "cs", "ir0", "ir1", "t0", "tir")
STREAMS = {"fi": ["f_stream"], "ff": ["f_stream"], "f2": ["f_stream"], "fb": ["fb_stream", "fb_mstream"], "fbm": ["fb_mstream"], "lr": ["lr_stream"]}


def gen_query(r, w, t):
    for _ in range(200):
        st = R.gen_call(r, w, exclude=("rng", "plot"))
        if t in st["uses"]:
            return st
    return None


def generate(r, tier):
    w = R.gen_world(r)
    t = r.choice(ON)
    steps = []
    nch = r.choice([1, 2])
    for _ in range(r.choice([2, 4, 7, 10, 14])):
        x = r.random()
        if t in STREAMS and x < 0.4:
            st = ed.gen_edit(r, t, bad=False, only=STREAMS[t])
            st["a"]["nch"] = nch if r.random() < 0.85 else 3 - nch
            steps.append(st)
        elif x < 0.55 and any(t in e.on and not e.bad for e in ed.EDITS.values()):
            steps.append(ed.gen_edit(r, t, bad=False))
        elif x < 0.75:
            st = gen_query(r, w, t)
            if st:
                steps.append(st)
        elif x < 0.85 and t in AUDIO:
            fmt = r.choice(["wav", "wav", "flac"])
            steps.append(dict(audio=fmt, bits=r.choice([16, 24] if fmt == "flac" else [16, 24, 32, 64, None]), name=r.choice(["take", "my take_1", "d.r/take"]), ext=r.random() < 0.5,
                              quiet=r.choice([None, None, [0.0, 0.3], [0.2, 0.0], [0.1, 0.5]]),
                              cls=r.choice(["Signal", "Signal.from_file", "ImpulseResponse", "ImpulseResponse.from_file", "add_channel"]), k=r.choice([1.0, 1.0, 0.3])))
        else:
            steps.append(dict(save=1, ext=r.random() < 0.5, lext=r.random() < 0.5, name=r.choice(["a", "a", "sub/obj", "d.r/obj"]), slot=r.choice([0, 0, 1, 2])))
            if r.random() < 0.6:
                steps.append(dict(crash=1))
        if r.random() < 0.12:
            steps.append(dict(crash=1))
        if r.random() < 0.05:
            steps.append(dict(save=1, ext=True, lext=True, name="a", slot=r.choice([0, 1]), die=round(r.random(), 3)))
    return dict(cfg=dict(world=w, t=t), steps=steps)


# ------------------------------------------------------------------ one life of the process
def saver(dsp, o):
    if isinstance(o, dsp.Signal):
        return lambda p: o.save_signal(p, mode="pkl")
    if isinstance(o, dsp.MultiBandSignal):
        return o.save_signal
    if isinstance(o, dsp.Spectrum):
        return o.save_spectrum
    if isinstance(o, dsp.Filter):
        return o.save_filter
    return o.save_filterbank


def save_path(dsp, o, st, base):
    p = os.path.join(base, st["name"] + "_%d" % st["slot"])
    if st["ext"] and type(o).__name__ != "LRFilterBank":
        return p + ".pkl", p
    return p, p


def questions(dsp, d, t, W):
    """What a user can ask about the object at any time."""
    from .c07 import follow
    return follow(d, t)


def live(dsp, plan, start, slots, alive_crashes, base, out, saving):
    """Runs steps from `start` on; slots: [(index, path)] checkpoints, newest last. Ends at an armed crash."""
    d = R.D(dsp)
    w, name = plan["cfg"]["world"], plan["cfg"]["t"]
    W = R.World(dsp, w)

    def emit(*m):
        b = pickle.dumps(m)
        out.write(struct.pack(">Q", len(b)) + b)
        out.flush()
    i = 0
    if start:
        while slots:
            i, path, lext = slots[-1]
            try:
                obj = dsp.standard.load_pkl_object(path + ".pkl" if lext else path)
                break
            except Exception as e:
                emit("unloadable", i, type(e).__name__)
                slots = slots[:-1]
        else:
            i, obj = 0, None
        if obj is not None:
            want = type(W[name]).__name__
            emit("loaded", i, type(obj).__name__, want)
            W.o[name] = obj
    t = W[name]
    nsave = i
    emit("state", i, snap.freeze(t), questions(dsp, d, t, W))
    for i in range(i, len(plan["steps"])):
        st = plan["steps"][i]
        if "crash" in st:
            if i in alive_crashes:
                emit("crash", i)
                os._exit(9)
        elif "save" in st:
            if not saving:
                continue
            before = snap.freeze(t)
            path, stem = save_path(dsp, t, st, base)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if "die" in st and i in alive_crashes:
                f = sched.Fault(1 + int(st["die"] * 2), Died())
                with f:
                    try:
                        saver(dsp, t)(path)
                    except Died:
                        emit("crash", i, stem, st["lext"])
                        os._exit(9)
            else:
                saver(dsp, t)(path)
            emit("saved", i, stem, st["lext"], core.same(snap.freeze(t), before, rtol=0, atol=0))
        elif "audio" in st:
            emit("audio", i, audio(dsp, t, st, base, i) if saving else None)
        else:
            np.random.seed(core.derive(plan["seed"], i) % (1 << 31))
            if "edit" in st:
                res, e = ed.apply(d, t, st, w)
            else:
                res, e = R.call(d, [W[k] for k in st["uses"]], st)
                if e is not None and not core.through_lib(e):
                    raise e
            emit("did", i, ("exc", type(e).__name__) if e else ("ok", snap.freeze(res)))
        emit("state", i + 1, snap.freeze(t), None)
    emit("state", len(plan["steps"]), snap.freeze(t), questions(dsp, d, t, W))
    emit("end")


class Died(BaseException):
    pass


STEP = {16: 2.0 ** -15, 24: 2.0 ** -23}


def audio(dsp, t, st, base, i):
    """Writes the signal as an audio file, reads it back; returns a complaint or None."""
    if st.get("quiet"):
        t = t.copy()
        y, n = np.array(t.time_data), t.length_samples
        y[:int(st["quiet"][0] * n)] = 0
        y[n - int(st["quiet"][1] * n):] = 0
        t.time_data = y
    before = snap.freeze(t)
    x = np.array(t.time_data)
    if x.shape[0] < max(2, x.shape[1]):
        return "skip"
    name = os.path.join(base, st["name"] + "_w%d" % (i % 2))
    os.makedirs(os.path.dirname(name), exist_ok=True)
    path = name + "." + st["audio"]
    if t.sampling_rate_hz > 600000:
        return "skip"
    listing = tree(base) - {path}
    t.save_signal(path if st["ext"] else name, mode=st["audio"] if st["k"] == 1.0 else st["audio"].upper(), **({} if st["bits"] is None else dict(bit_depth=st["bits"])))
    if core.same(snap.freeze(t), before, rtol=0, atol=0):
        return ("saving-changes", "audio: the saved signal changed")
    new = tree(base) - listing
    if new != {path}:
        return ("wrong-file", f"audio files {sorted(new)} instead of {path}")
    c = st["cls"]
    if c == "add_channel":
        keep = dsp.Signal(None, np.zeros_like(x), t.sampling_rate_hz)
        keep.add_channel(path)
        fs, y = keep.sampling_rate_hz, keep.time_data[:, x.shape[1]:]
        if keep.time_data[:, :x.shape[1]].any():
            return ("audio-differs", "channels of the receiving signal changed")
    else:
        C = getattr(dsp, c.split(".")[0])
        o = C.from_file(path) if "." in c else C(path)
        if type(o) is not C:
            return ("audio-differs", f"{c} returned a {type(o).__name__}")
        fs, y = o.sampling_rate_hz, o.time_data
    if fs != t.sampling_rate_hz:
        return ("audio-differs", f"sampling rate {t.sampling_rate_hz} read back as {fs}")
    if y.shape != x.shape:
        return ("audio-differs", f"{st['audio']}: shape {x.shape} read back as {y.shape}")
    bits = st["bits"] or 32
    if bits in STEP:
        err = np.max(np.abs(np.clip(x, -1, 1) - y))
        tol = 2.1 * STEP[bits]
    else:
        # a constraint on the amplitude may scale a signal beyond full scale, as on any other way in
        peak = np.max(np.abs(x))
        if peak > 1 and np.max(np.abs(y)) <= 1 + 1e-6 and c.startswith("Impulse"):
            x = x / peak
        err = np.max(np.abs(x - y))
        tol = (2.0 ** -23) * max(1.0, peak) if bits == 32 else 1e-15
    if err > tol:
        return ("audio-differs", f"{st['audio']} {bits} bit: samples differ by {err:.3g}, allowed {tol:.3g}")
    return None


def tree(base):
    return {os.path.join(p, f) for p, _, fs in os.walk(base) for f in fs}


def run_life(dsp, plan, start, slots, crashes, base, saving):
    prog = base + ".log"
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            with open(prog, "wb") as out:
                live(dsp, plan, start, slots, crashes, base, out, saving)
            code = 0
        except BaseException as e:
            import traceback
            with open(prog + ".err", "w") as f:
                f.write(traceback.format_exc())
            if isinstance(e, Exception) and core.through_lib(e):
                code = 4
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, 4, 9):
        raise RuntimeError("life ended with %s: %s" % (code, open(prog + ".err").read() if os.path.exists(prog + ".err") else ""))
    msgs = []
    with open(prog, "rb") as f:
        while h := f.read(8):
            msgs.append(pickle.loads(f.read(struct.unpack(">Q", h)[0])))
    os.unlink(prog)
    if code == 4:
        e = open(prog + ".err").read()
        os.unlink(prog + ".err")
        msgs.append(("raised", e))
    return code, msgs


def opname(plan, i):
    st = plan["steps"][i]
    return st.get("op") or st.get("edit") or next(k for k in ("save", "audio", "crash") if k in st)


def execute(plan, ctx):
    import dsptoolbox as dsp
    name = plan["cfg"]["t"]
    base = os.path.join(ctx.scratch, "disk")
    os.makedirs(base)
    code, msgs = run_life(dsp, plan, 0, [], set(), os.path.join(ctx.scratch, "twin"), False)
    if code != 0:
        raise RuntimeError("uninterrupted life: %r" % (msgs[-1],))
    did = {m[1]: m[2] for m in msgs if m[0] == "did"}
    states = {}
    for m in msgs:
        if m[0] == "state":
            states.setdefault(m[1], []).append(m)
    final = states[len(plan["steps"])][-1]
    slots, written = [], set()
    torn = set()
    crashes = {i for i, st in enumerate(plan["steps"]) if "crash" in st or "die" in st}
    n_life = 0
    while True:
        code, msgs = run_life(dsp, plan, n_life, list(slots), crashes, base, True)
        pos = 0
        resumed = False
        cls = None
        for m in msgs:
            k = m[0]
            if k == "unloadable":
                ctx.probe("checkpoint not loadable")
                if m[1] not in torn:
                    raise Violation("not-loadable", f"{name}: checkpoint of step {m[1]} does not load: {m[2]}", op="load")
                slots = [s for s in slots if s[0] != m[1]]
            elif k == "loaded":
                resumed = True
                ctx.nontrivial = True
                if m[2] != m[3]:
                    raise Violation("other-class", f"{name}: saved {m[3]}, loaded {m[2]}", op="load")
                ctx.probe("restarts from a checkpoint")
                cls = m[2]
            elif k == "state":
                for ref in states.get(m[1], [])[:1] if m[3] is None else states.get(m[1], []):
                    x = core.same(m[2], ref[2], rtol=1e-12, atol=0)
                    if x:
                        raise Violation("state-differs" if n_life else "saving-changes", f"{name} before step {m[1]}, life {n_life}{' (resumed)' if resumed else ''}: {x}", op=name)
                    if m[3] is not None and ref[3] is not None:
                        x = core.same(m[3], ref[3])
                        if x:
                            raise Violation("answers-differ", f"{name} before step {m[1]}, life {n_life}{' (resumed)' if resumed else ''}: {x}", op=name)
            elif k == "did":
                i = m[1]
                a, b = m[2], did[i]
                x = None
                if a[0] != b[0] or (a[0] == "exc" and a[1] != b[1]):
                    x = f"{a[:2] if a[0] == 'exc' else 'a result'}, uninterrupted: {b[:2] if b[0] == 'exc' else 'a result'}"
                elif a[0] == "ok":
                    x = core.same(a[1], b[1])
                if x:
                    raise Violation("result-differs" if n_life else "saving-changes", f"{opname(plan, i)} on {name}, life {n_life}{' (resumed)' if resumed else ''}: {x}", op=opname(plan, i))
                if resumed:
                    ctx.key(cls, opname(plan, i), min(n_life, 4))
            elif k == "saved":
                if m[4]:
                    raise Violation("saving-changes", f"{name}: saving changed the object: {m[4]}", op="save")
                slots = [s for s in slots if s[1] != m[2]] + [(m[1] + 1, m[2], m[3])]
                torn.discard(m[1] + 1)
                ctx.probe("checkpoints")
            elif k == "audio":
                if m[2] is None:
                    st = plan["steps"][m[1]]
                    ctx.key("audio", st["audio"], st["bits"], st["cls"])
                    ctx.probe(f"audio {st['audio']} {st['bits']}")
                elif m[2] != "skip":
                    raise Violation(m[2][0], m[2][1], op="audio")
            elif k == "raised":
                raise Violation("save-fails", f"{name}: {m[1].strip().splitlines()[-1]}", op="save", tb=m[1][-1500:])
            elif k == "crash":
                crashes.discard(m[1])
                ctx.fault("process dies inside a save" if len(m) > 2 else "process dies")
                if len(m) > 2:
                    slots = [s for s in slots if s[1] != m[2]] + [(m[1] + 1, m[2], m[3])]
                    torn.add(m[1] + 1)
            pos += 1
        written |= {s[1] + ".pkl" for s in slots}
        ctx.log("life", n_life, code, len(msgs), [m[1] for m in msgs if m[0] in ("loaded", "crash", "saved", "unloadable")])
        for f in tree(base):
            if "_w" not in os.path.basename(f) and f not in written:
                raise Violation("wrong-file", f"a save left {os.path.relpath(f, base)} behind", op="save")
        for f in written - tree(base):
            if not any(f == s[1] + ".pkl" and s[0] in torn for s in slots):
                raise Violation("wrong-file", f"a save did not write {os.path.relpath(f, base)}", op="save")
        ctx.sim_time += 0.05 * len(msgs)
        n_life += 1
        if code == 0:
            break
