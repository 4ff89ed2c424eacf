"""C12: audio playback and recording deliver the right samples or raise."""
import math
import numpy as np
from .. import card, core, sigops as so, snap
from ..core import Violation

RUNS = {"quick": 8000, "thorough": 150000}
RULE = ("seeded plan: a simulated sound card with 1-4 devices and 1-9 calls of play, record, play_and_record, output streams with user callbacks, device, block size and latency settings, with random channel maps, durations, "
        "levels, block schedules and loopback, and faults: device missing, failing to open or start, unplugged mid-stream, errors on stop and close, interrupts, xruns; after every call the samples that reached or left the "
        "converter are compared with a model; non-trivial = at least one call delivered samples or met a fault")
KEYRULE = "call x duration class x channel map class x fault met x outcome"
REAL = ["dsptoolbox.audio_io", "sounddevice's Python code (streams, callbacks, play/rec/playrec, device lookup)"]
STUB = ["PortAudio and the hardware: simulated card with seeded devices, block sizes, loopback and faults; time is the card's"]
ASSUMPTIONS = ["a device that fails while a stream runs ends the stream's callbacks, as PortAudio does", "levels are judged in 32-bit float, the format sounddevice uses", "recorded channels are requested in ascending order"]
SIMTIME = "time of the simulated converter"
SHRINK = 200
FS = [8000, 16000, 44100, 48000]
LATENCY = {"low": 0.01, "high": 0.1}      # defaults of the simulated devices
NAMES = ["Built-in Audio", "USB Card One", "USB Card Two", "Babyface Pro", "Loop"]


def gen_devices(r):
    out = []
    names = r.sample(NAMES, r.choice([1, 2, 3, 4]))
    for n in names:
        out.append(dict(name=n, **{"in": r.choice([1, 2, 4, 6]), "out": r.choice([2, 2, 4, 6])}, fs=float(r.choice([44100, 48000])), rates=r.choice([[], [], [8000, 16000, 44100, 48000]])))
    if r.random() < 0.2:
        out.append(dict(name="Mic only", **{"in": 2, "out": 0}, fs=44100.0, rates=[]))
    return dict(devices=out, default=[r.randrange(len(names)), r.randrange(len(names))])


def gen_map(r, n, top):
    if n > top or r.random() < 0.25:
        return None
    m = r.sample(range(1, top + 1), n)
    if r.random() < 0.6:
        m.sort()
    if n == 1 and r.random() < 0.5:
        return m[0]
    return m


def gen_dur(r, fs, n):
    x = r.random()
    if x < 0.25:
        return None
    if x < 0.4:
        return round(r.uniform(0.2, 1.5) * n / fs, 6)
    if x < 0.7:
        return r.choice([1, 2, 3, 7, 29, 58, 113]) * r.choice([0.001, 0.01, 0.0001])
    k = r.randrange(20, 2 * n)
    return k / fs


def generate(r, tier):
    c = gen_devices(r)
    steps = []
    for _ in range(r.choice([1, 1, 2, 4, 9])):
        dev = r.randrange(len(c["devices"]))
        d = c["devices"][dev]
        fs = r.choice(FS)
        n = core.loguniform(r, 30, 1500)
        nch = r.choice([1, 1, 2, 2, 3])
        st = dict(k=r.choice(["play", "play", "rec", "rec", "both", "both", "both", "stream", "set", "set"]), fs=fs, seed=r.randrange(1 << 30), blocks=[r.choice([1, 7, 32, 64, 100, 256, 500]) for _ in range(r.choice([1, 3, 6]))])
        if r.random() < 0.5:
            st["dev"] = r.choice([dev, dev, d["name"], d["name"].lower(), d["name"].split()[-1], 17, "no such device"]) if r.random() < 0.9 else 17
        if st["k"] in ("play", "both", "stream"):
            st.update(n=n, nch=nch, amp=r.choice([0.3, 0.9, 1.4, 0.0]) if r.random() < 0.95 else 0.5, dbfs=r.choice([-6, -6, 0, -20.5, None]), cls=r.choice(["Signal", "Signal", "ImpulseResponse"]),
                      out=gen_map(r, nch, d["out"]))
        if st["k"] in ("rec", "both"):
            k = r.choice([1, 1, 2, 3])
            m = gen_map(r, k, d["in"])
            st["inp"] = sorted(m) if isinstance(m, list) else m
            st["tup"] = r.random() < 0.2
        if st["k"] in ("play", "rec", "both"):
            st["dur"] = gen_dur(r, fs, n)
            if st["k"] == "rec" and st["dur"] is None:
                st["dur"] = r.choice([0.05, 0.01, 100 / fs])
            if r.random() < 0.1:
                st["bad"] = r.choice(["dur", "dbfs", "chan0", "nchan", "toomany"])
            elif r.random() < 0.15:
                st["dur"] = int(1)
                st["fs"] = 2000
            st["loop"] = [[r.randrange(4), r.randrange(4), r.choice([0, 1, 33, 200])] for _ in range(r.choice([0, 1, 2]))]
        if st["k"] == "stream":
            st.update(stop=r.choice(["call", "raise", "none"]), at=r.choice([0, 1, 3, 8]), bs=r.choice([32, 64, 256]), fin=r.random() < 0.6, fl=[r.random() < 0.3, r.random() < 0.3, r.random() < 0.2], lat=r.choice([None, None, 0.125, "low", "high"]))
        if st["k"] == "set":
            st = dict(k="set", what=r.choice(["int", "str", "pair", "pairstr", "ghost", "ghostpair", "mixed", "block", "lat", "prompt", "info"]), a=r.randrange(len(c["devices"])), b=r.randrange(len(c["devices"])),
                      fs=r.choice([None, 44100]), v=r.choice([0, 64, 128]), lo=[r.random() < 0.5, r.random() < 0.5])
        elif r.random() < 0.4:
            f = r.choice(["open", "start", "info", "setfinished", "vanish", "vanish", "interrupt", "close", "stop", "xrun", "unplugged", "count"])
            st["fault"] = {f: {"open": r.choice(sorted(card.ERR)), "start": r.choice(["unavailable", "host", "internal"]), "vanish": r.randrange(0, n), "interrupt": r.randrange(0, n), "xrun": r.randrange(0, n)}.get(f, 1)}
        steps.append(st)
    return dict(cfg=c, steps=steps)


class Model:
    """sounddevice defaults as the set_* calls leave them."""

    def __init__(self, c):
        self.c, self.dev = c, [None, None]
        self.block, self.lat, self.fs = 0, ["high", "high"], None

    def find(self, q, kind):
        """Device index a query stands for, or None."""
        ds = self.c["devices"]
        if q is None:
            q = self.dev[0 if kind == "in" else 1]
            if q is None:
                return self.c["default"][0 if kind == "in" else 1]
        if isinstance(q, int):
            return q if 0 <= q < len(ds) else None
        hits = [i for i, d in enumerate(ds) if d[kind] > 0 and words_in(q.lower(), (d["name"] + ", Sim").lower())]
        exact = [i for i in hits if q.lower() in (ds[i]["name"].lower(), ds[i]["name"].lower() + ", sim")]
        return hits[0] if len(hits) == 1 else exact[0] if len(exact) == 1 else None


def words_in(q, s):
    p = 0
    for w in q.split():
        p = s.find(w, p)
        if p < 0:
            return False
        p += len(w)
    return True


def frames(dur, fs):
    """Numbers of frames that are the requested duration: one, or the two neighbours of a fractional one."""
    x = dur * fs
    k = round(x)
    return {k} if abs(x - k) < 1e-6 * max(1, k) else {math.floor(x), math.ceil(x)}


def execute(plan, ctx):
    import dsptoolbox as dsp
    C = card.install(plan["cfg"])
    M = Model(plan["cfg"])
    for i, st in enumerate(plan["steps"]):
        if st["k"] == "set":
            settings(ctx, dsp, C, M, st)
        else:
            C.faults = dict(st.get("fault", {}))
            C.met, C.gone, C.blocks, C.bi, C.seed = [], set(), st["blocks"], 0, st["seed"]
            C.loop = st.get("loop", [])
            if "unplugged" in C.faults:
                del C.faults["unplugged"]
                C.gone = set(range(len(plan["cfg"]["devices"])))
                C.met.append("unplugged")
            if st["k"] == "stream":
                stream(ctx, dsp, C, M, st)
            else:
                transfer(ctx, dsp, C, M, st)
            for f in C.met:
                ctx.fault("device: " + f)
        ctx.sim_time = C.now


def make(dsp, st):
    x = so.data(st["seed"], st["n"], st["nch"]) * st["amp"]
    return getattr(dsp, st["cls"])(None, x, st["fs"], constrain_amplitude=False)


def listify(m, default):
    return default if m is None else [m] if isinstance(m, int) else list(m)


def transfer(ctx, dsp, C, M, st):
    k = st["k"]
    A = dsp.audio_io
    sig = make(dsp, st) if k != "rec" else None
    before = snap.freeze(sig)
    om = listify(st.get("out"), list(range(1, st.get("nch", 0) + 1)))
    im = listify(st.get("inp"), [1])
    kw = {}
    if "dev" in st:
        kw["device"] = st["dev"]
    dur, dbfs = st["dur"], st.get("dbfs")
    bad = st.get("bad")
    o_arg, i_arg = st.get("out"), st.get("inp")
    if bad == "dur" and k != "rec":
        dur = -0.5
    elif bad == "dbfs" and k != "rec":
        dbfs = 3.0
    elif bad == "chan0":
        o_arg, i_arg = [0] + om[1:], [0]
    elif bad == "nchan" and k != "rec":
        o_arg = om + [max(om) + 1]
    elif bad == "toomany":
        o_arg, i_arg = [20 + j for j in range(len(om))], [33]
    else:
        bad = None
    if st.get("tup") and isinstance(i_arg, list):
        i_arg = tuple(i_arg)
    if i_arg is not None:
        kw["rec_channels"] = i_arg
    if k != "rec":
        if o_arg is not None:
            kw["play_channels"] = o_arg
        kw["normalized_dbfs"] = dbfs
    n0 = len(C.streams)
    err = res = None
    try:
        if k == "play":
            kw.pop("rec_channels", None)
            res = A.play(sig, dur, **kw)
        elif k == "rec":
            res = A.record(dur, st["fs"], **kw)
        else:
            res = A.play_and_record(sig, dur, **kw)
    except (Exception, KeyboardInterrupt) as e:
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, card.Interrupted):
            raise
        err = e
    # what has to happen
    need = [x for x, on in (("in", k != "play"), ("out", k != "rec")) if on]
    devs = {x: M.find(st.get("dev"), x) for x in need}
    ds = M.c["devices"]
    usable = bad is None and all(v is not None and max(im if x == "in" else om) <= ds[v][x] and ds[v][x] > 0 and (not ds[v]["rates"] or st["fs"] in ds[v]["rates"]) for x, v in devs.items())
    if k != "rec" and max(om) < 1:
        usable = False
    if k == "rec":
        lens = frames(dur, st["fs"])
    else:
        lens = {min(f, st["n"]) for f in frames(dur, st["fs"])} if dur is not None else {st["n"]}
    fatal = [f for f in C.met if f in ("open", "start", "info", "setfinished", "interrupt", "unplugged", "vanish")]
    if "vanish" in fatal and C.streams[-1].frame >= max(lens):
        fatal.remove("vanish")              # everything had passed the converter by then
    what = {"play": "play", "rec": "record", "both": "play_and_record"}[k]
    x = core.same(snap.freeze(sig), before, rtol=0, atol=0)
    if x:
        raise Violation("signal-changed", f"{what}: {x}", op=what)
    ctx.key(what, "frac" if dur and abs(dur * st["fs"] - round(dur * st["fs"])) > 1e-6 else "whole" if dur else "all", "unsorted" if om != sorted(om) else "map" if st.get("out") else "default",
            "+".join(C.met), "raised" if err else "ok")
    ctx.log(what, type(err).__name__ if err else None, C.met, len(C.streams) - n0)
    if C.met:
        ctx.nontrivial = True
    if err is not None:
        if usable and not fatal and min(lens) > 1 and not ({"count"} & set(C.met)):    # one sample is no signal
            raise Violation("healthy-call-raises", f"{what} on a healthy device: {err!r}", op=what, tb=core.short_tb(err))
        ctx.fault("call rejected" if not C.met else "call raised")
        return
    if fatal:
        raise Violation("failure-not-reported", f"{what} returned {'data' if res is not None else 'normally'} although the device failed: {fatal}", op=what, fault=fatal[0])
    if not usable:
        if bad in ("dur", "dbfs", "chan0", "nchan"):
            raise Violation("bad-request-accepted", f"{what}: {bad}", op=what)
        raise Violation("failure-not-reported", f"{what} returned although no device could serve it ({bad or devs})", op=what, fault="request")
    new = [s for s in C.streams[n0:] if s.ended or s.frame]
    if len(new) != 1:
        raise Violation("wrong-stream", f"{what}: {len(new)} streams ran", op=what)
    s = new[0]
    if s.state != "closed":
        raise Violation("stream-left-open", f"{what}: {s.state}", op=what)
    for side, par in (("in", s.idev), ("out", s.odev)):
        if (par is not None) != (side in need) and side in need:
            raise Violation("wrong-stream", f"{what}: no {side}put stream", op=what)
        if side in need and par[0] != devs[side]:
            raise Violation("wrong-device", f"{what} used device {par[0]} for its {side}put, requested {st.get('dev')!r} (default {M.dev}): {devs[side]}", op=what)
    if s.fs != st["fs"]:
        raise Violation("wrong-rate", f"{what}: {s.fs} instead of {st['fs']}", op=what)
    M.used = True
    if k != "rec":
        x = np.array(sig.time_data)
        y = np.concatenate(s.out) if s.out else np.zeros((0, s.odev[1]), np.float32)
        msgs = []
        for L in lens:
            want = np.zeros((len(y), s.odev[1]))
            if len(y) < L:
                msgs.append(f"only {len(y)} of {L} frames were played")
                continue
            part = x[:L]
            if dbfs is not None and np.max(np.abs(part), initial=0) > 0:
                part = part * (10 ** (dbfs / 20) / np.max(np.abs(part)))
            want[:L][:, [c - 1 for c in om]] = part
            z = core.maxdiff(y, want) if not core.close(y, want, rtol=1e-5, atol=2e-7) else None
            if z is None:
                break
            msgs.append(z)
        else:
            raise Violation("wrong-playback", f"{what} to channels {om}, {sorted(lens)} frames, {dbfs} dBFS: {msgs[0]}", op=what)
    if k != "play":
        if type(res) is not dsp.Signal:
            raise Violation("wrong-recording", f"{what} returned a {type(res).__name__}", op=what)
        if res.sampling_rate_hz != st["fs"]:
            raise Violation("wrong-recording", f"{what}: sampling rate {res.sampling_rate_hz}", op=what)
        x = np.concatenate(s.inp) if s.inp else np.zeros((0, s.idev[1]))
        got = res.time_data
        if min(lens) <= len(im):
            return                  # shorter than wide: a Signal cannot tell samples from channels
        if got.shape[0] not in lens or got.shape[1] != len(im):
            raise Violation("wrong-recording", f"{what}: {got.shape[0]} samples and {got.shape[1]} channels for {sorted(lens)} and {len(im)}", op=what)
        want = x[:got.shape[0]][:, [c - 1 for c in im]]
        if want.shape != got.shape or not core.close(got, want, rtol=1e-6, atol=1e-7):
            raise Violation("wrong-recording", f"{what} from channels {im}: {core.maxdiff(got, want) if want.shape == got.shape else 'missing samples'}", op=what)
    ctx.nontrivial = True
    ctx.probe(what + " delivered")


def stream(ctx, dsp, C, M, st):
    """A user-driven output stream, stopped from its callback."""
    A = dsp.audio_io
    sig = make(dsp, st)
    before = snap.freeze(sig)
    x = np.array(sig.time_data, dtype=np.float32)
    pos, calls, fin = [0], [0], [0]

    def cb(out, n, time, status):
        part = x[pos[0]: pos[0] + n]
        out[:len(part)] = part
        out[len(part):] = 0
        pos[0] += n
        calls[0] += 1
        if calls[0] > st["at"]:
            if st["stop"] == "call":
                A.CallbackStop()
            elif st["stop"] == "raise":
                raise A.CallbackStop()

    def finished():
        fin[0] += 1
    dev = M.find(st.get("dev"), "out")
    usable = dev is not None and M.c["devices"][dev]["out"] >= st["nch"] and (not M.c["devices"][dev]["rates"] or st["fs"] in M.c["devices"][dev]["rates"])
    n0 = len(C.streams)
    fl = st.get("fl", [False] * 3)
    kw = {k: True for k, f in zip(("clip_off", "dither_off", "prime_output_buffers_using_stream_callback"), fl) if f}
    if st.get("lat") is not None:
        kw["latency"] = st["lat"]
    C.user_mode = True
    err = None
    s = None
    try:
        s = A.output_stream(sig, st["bs"], st.get("dev"), callback=cb, finished_callback=finished if st["fin"] else None, **kw)
        s.start()
        secs = round((st["at"] + 3) * st["bs"] / st["fs"] + 0.002, 3)
        t0 = C.now
        A.sleep(secs)
        if abs(C.now - t0 - secs) > 0.0011:
            raise Violation("wrong-sleep", f"sleep({secs}) took {C.now - t0} s", op="sleep")
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, card.Interrupted):
            raise
        err = e
    C.user_mode = False
    fatal = [f for f in C.met if f in ("open", "start", "info", "setfinished", "interrupt", "unplugged", "vanish", "count")]
    if C.met:
        ctx.nontrivial = True
    if core.same(snap.freeze(sig), before, rtol=0, atol=0):
        raise Violation("signal-changed", "output_stream", op="output_stream")
    ctx.key("stream", st["stop"], "+".join(C.met), "raised" if err else "ok")
    ctx.log("stream", type(err).__name__ if err else None, C.met, calls[0])
    if err is not None:
        if usable and not fatal:
            raise Violation("healthy-call-raises", f"output_stream: {err!r}", op="output_stream", tb=core.short_tb(err))
    elif not usable:
        raise Violation("failure-not-reported", "output_stream opened without a usable device", op="output_stream", fault="request")
    elif not fatal:
        S = C.streams[n0]
        if st["stop"] == "none":
            if S.state != "active" or calls[0] <= st["at"]:
                raise Violation("stream-ended", f"state {S.state} after {calls[0]} blocks without a stop", op="output_stream")
        else:
            if S.state == "active" or calls[0] != st["at"] + 1:
                raise Violation("stop-ignored", f"stop requested in block {st['at'] + 1}, the stream is {S.state} after {calls[0]} blocks", op="CallbackStop")
            if st["fin"] and fin[0] != 1:
                raise Violation("stop-ignored", "finished_callback was not called", op="CallbackStop")
        y = np.concatenate(S.out) if S.out else np.zeros((0, st["nch"]), np.float32)
        want = np.zeros_like(y)
        m = min(len(y), len(x))
        want[:m] = x[:m]
        if y.shape[1] != st["nch"] or S.fs != st["fs"] or S.odev[0] != dev or not np.array_equal(y, want):
            raise Violation("wrong-playback", "output_stream delivers other samples, rate, channels or device", op="output_stream")
        if S.block != st["bs"]:
            raise Violation("wrong-stream", f"block size {S.block} instead of {st['bs']}", op="output_stream")
        if S.flags != 1 * fl[0] + 2 * fl[1] + 8 * fl[2]:
            raise Violation("wrong-stream", f"stream flags {S.flags} for {sorted(kw)}", op="output_stream")
        lat = st["lat"] if st.get("lat") is not None else M.lat[1]
        if abs(S.odev[3] - (lat if isinstance(lat, float) else LATENCY[lat])) > 1e-9:
            raise Violation("wrong-stream", f"latency {S.odev[3]} for {lat!r}", op="output_stream")
        ctx.nontrivial = True
        ctx.probe("stream ran")
    if s is not None and not s.closed:
        C.faults = {}
        s.close()


def settings(ctx, dsp, C, M, st):
    A = dsp.audio_io
    C.faults, C.gone = {}, set()
    ds = M.c["devices"]
    w = st["what"]
    low = lambda i: ds[i]["name"].lower()
    arg = {"int": st["a"], "str": low(st["a"])[1:], "pair": [st["a"], st["b"]], "pairstr": [ds[st["a"]]["name"], low(st["b"])], "ghost": "phantom", "ghostpair": [st["a"], 99], "mixed": [st["a"], ds[st["b"]]["name"]]}.get(w)
    err = res = None
    try:
        if w == "block":
            A.set_blocksize(st["v"])
            M.block = st["v"]
        elif w == "lat":
            A.set_latency(*st["lo"])
            M.lat = ["low" if v else "high" for v in st["lo"]]
        elif w == "info":
            res = A.print_device_info(st["a"])
            if res["name"] != ds[st["a"]]["name"] or len(A.print_device_info()) != len(ds):
                raise Violation("wrong-info", f"{res}", op="print_device_info")
        elif w == "prompt":
            import builtins
            real = builtins.input
            builtins.input = lambda *a: f"{st['a']}, {st['b']}"
            try:
                A.set_device(None)
            finally:
                builtins.input = real
            M.dev = [st["a"], st["b"]]
        else:
            res = A.set_device(arg, st["fs"])
            if w in ("ghost", "ghostpair", "mixed"):
                raise Violation("bad-request-accepted", f"set_device({arg!r})", op="set_device")
            if w in ("int", "str"):
                M.dev = [st["a"]] * 2
            else:
                M.dev = [st["a"], st["b"]]
            M.fs = st["fs"] or M.fs
    except Violation:
        raise
    except Exception as e:
        err = e
        if w not in ("ghost", "ghostpair", "mixed"):
            raise Violation("healthy-call-raises", f"{w}: {e!r}", op="set_device", tb=core.short_tb(e))
        ctx.fault("unknown device")
    import sounddevice as sd
    have = [sd.default.device[0], sd.default.device[1]]
    want = [M.c["default"][j] if v is None else v for j, v in enumerate(M.dev)]
    if have != want:
        raise Violation("wrong-default", f"default devices {have} after {w}, expected {want}", op="set_device")
    if sd.default.blocksize != M.block or [sd.default.latency[0], sd.default.latency[1]] != M.lat or sd.default.samplerate != M.fs:
        raise Violation("wrong-default", f"block size, latency or rate after {w}", op="set_device")
    ctx.log("set", w, type(err).__name__ if err else None)
    ctx.key("set", w, bool(err))
