"""C11: results are reproducible: seeded randomness only, the same in every process."""
import os, random, time, hashlib, math
import numpy as np
from .. import core, procs, registry as R, snap, sigops as so, zygote
from ..core import Violation

RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("seeded plan, one of two kinds. (1) a history of 2-10 calls drawn from the table of public operations and the reusable processors, random functions among them, with other uses of the generator in between; "
        "random calls are seeded one by one or as one chain; every call is repeated alone in an interpreter with another hash seed, environment, clock, operating-system entropy and generator state, "
        "the chain there without the calls that are not random. (2) random functions under a simulated generator that delivers extreme, constant, alternating or ordinary draws, judged by their "
        "documented properties; non-trivial = at least one result was compared or judged")
KEYRULE = "operation x random or not x hash seed, or generator function x kind of draws x type"
REAL = ["every public module of dsptoolbox", "numpy's global generator (kind 1)", "real Python interpreters with different hash seeds"]
STUB = ["operating-system entropy and clocks seen by Python code are drawn from the plan and differ between the two interpreters", "np.random.normal/uniform and their standard forms deliver simulated draws (kind 2)",
        "numba just-in-time compilation is off, prange iterates in a seeded order that differs between the interpreters"]
ASSUMPTIONS = ["documented as random: noise, uncorrelated oscillators, dither, LPC synthesis, the noise tail of synthetic room impulse responses, oscillators with random phase (the default chorus has them)",
               "simulated normal draws stay within six standard deviations and are never exactly zero"]
SHRINK = 160
HASHES = 3


def prepare(seed, plan=None):
    zygote.start([plan["cfg"]["hash"]] if plan else hashes(seed))


def hashes(seed):
    return [1 + core.derive(seed, "hash", i) % 100000 for i in range(HASHES)]


def is_random(st):
    if "proc" in st:
        P = procs.PROCS[st["proc"]]
        return not P.deterministic(st["spec"]) or st["proc"] == "chorus"
    if "text" in st:
        return False
    o, a = st["op"], st["a"]
    if o.startswith("lpc") or o == "fx_lpc":
        return bool(a["s"])
    if o == "synthetic_rir":
        return bool(a["n"])
    return "rng" in R.OPS[o].flags


# ------------------------------------------------------------------ plans
def gen_proc(r):
    from . import c13
    name = r.choice(["specsub", "distortion", "compressor", "tremolo", "tremolo", "chorus", "chorus", "delay", "lfo", "lfo", "lfo", "designer", "morlet", "parallel", "kautz", "bank", "structure", "beamformer", "mics"])
    P = procs.PROCS[name]
    for _ in range(20):
        spec = P.gen(r)
        if name != "lfo" or not P.deterministic(spec) or r.random() < 0.3:
            break
    return dict(proc=name, spec=spec, u=c13.gen_use(r, P, spec))


def generate(r, tier):
    h = hashes(SEED)[r.randrange(HASHES)]
    if r.random() < 0.35:
        return dict(cfg=dict(kind="draws", hash=h), steps=[gen_draw(r) for _ in range(r.choice([2, 4, 6]))])
    w = R.gen_world(r)
    rngops = sorted(n for n in R.OPS if "rng" in R.OPS[n].flags)
    steps = []
    for _ in range(r.choice([2, 3, 4, 6, 10])):
        x = r.random()
        if x < 0.3:
            o = R.OPS[r.choice(rngops)]
            st = dict(op=o.name, uses=o.uses(r), a=o.gen(r, w))
        elif x < 0.42:
            st = gen_proc(r)
        elif x < 0.47:
            st = dict(text=r.choice(["bank", "bank", "signal", "filters", "info"]), s=r.randrange(1 << 30))
        else:
            st = R.gen_call(r, w, ())
        st["seed"] = r.choice([None, None, r.randrange(1 << 31)]) if steps else r.randrange(1 << 31)
        if r.random() < 0.2:
            st["burn"] = r.randrange(1, 50)
        steps.append(st)
    return dict(cfg=dict(kind="history", hash=h, world=w, chain=r.random() < 0.6), steps=steps)


SEED = int(os.environ.get("VERIF_SEED", "1"))


# ------------------------------------------------------------------ sources of nondeterminism
class Sources:
    """Entropy and clocks of this life."""

    def __init__(self, seed):
        self.g = random.Random(seed)
        self.t = 1.6e9 + self.g.random() * 1e8

    def urandom(self, n):
        return self.g.randbytes(n)

    def now(self):
        self.t += self.g.random()
        return self.t

    def install(self):
        os.urandom = self.urandom
        random._urandom = self.urandom
        for n in ("time", "perf_counter", "monotonic", "process_time"):
            setattr(time, n, self.now)
            setattr(time, n + "_ns", lambda: int(self.now() * 1e9))
        random.seed(self.g.random())


def state():
    s = np.random.get_state()
    return hashlib.sha256(s[1].tobytes() + repr((s[0], s[2], s[3], s[4])).encode()).hexdigest()[:16], hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:16]


def texts(dsp, st):
    r = random.Random(st["s"])
    from .. import objs
    fs = [objs.filt(dsp, objs.rnd_filter_spec(r, 8000, True)) for _ in range(r.choice([2, 3, 5]))]
    b = dsp.FilterBank(fs)
    if st["text"] == "bank":
        return [list(b.metadata.items()), b.metadata_str, str(b)]
    if st["text"] == "filters":
        return [[list(f.metadata.items()) for f in fs], [f.metadata_str for f in fs], [str(f) for f in fs]]
    s = dsp.Signal(None, so.data(st["s"], 200, 2), 8000)
    m = dsp.MultiBandSignal([s, s.copy()])
    if st["text"] == "signal":
        return [list(s.metadata.items()), s.metadata_str, str(s), str(m), m.metadata_str]
    import io, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        b.show_info()
        s.show_info()
        fs[0].show_info()
    return [out.getvalue()]


def ordered(v):
    """Like snap.freeze, but the order of mappings counts."""
    return [[str(k), snap.freeze(x)] for k, x in v] if isinstance(v, list) and v and isinstance(v[0], tuple) else v


def run_step(dsp, d, W, st):
    """-> (frozen result, exception name)."""
    if "proc" in st:
        from . import c13
        P = procs.PROCS[st["proc"]]
        obj = P.build(dsp, st["spec"])
        u = dict(st["u"])
        use = c13.Use(dsp, P, st["spec"], u)
        try:
            return snap.freeze(P.use(dsp, obj, use.ins, use.u)), None
        except Exception as e:
            if not core.through_lib(e):
                raise
            return None, type(e).__name__
    if "text" in st:
        return [ordered(x) for x in texts(dsp, st)], None
    res, e = R.call(d, [W[k] for k in st["uses"]], st)
    return (None, type(e).__name__) if e is not None else (snap.freeze(res), None)


def operands(W, st):
    for k in st.get("uses", []):
        W[k]


def isolated(fn):
    """fn() in a forked child."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                import traceback
                out = ("err", "".join(traceback.format_exception(e))[-3000:])
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        raise RuntimeError("a forked call died")
    k, v = pickle.loads(b)
    if k == "err":
        raise RuntimeError(v)
    return v


def elsewhere(q):
    """Runs in the other interpreter: groups of steps, each group alone in a pristine process."""
    import dsptoolbox as dsp
    import numba
    from . import c08
    numba.prange = c08.PRange
    c08.PRange.seed = q["prange"]
    Sources(q["entropy"]).install()
    d = R.D(dsp)
    out = []
    for group in q["groups"]:
        def go(group=group):
            W = R.World(dsp, q["world"])
            for st in group["steps"]:
                operands(W, st)
            np.random.seed(group["seed"])
            res = []
            for st in group["steps"]:
                if st["id"] in group.get("burns", {}):
                    np.random.uniform(size=group["burns"][st["id"]])
                res.append(run_step(dsp, d, W, st) + (state()[0],))
            return res
        out.append(isolated(go))
    return out


# ------------------------------------------------------------------ histories
def history(plan, ctx):
    import dsptoolbox as dsp
    import numba
    from . import c08
    c = plan["cfg"]
    w = c["world"]
    d = R.D(dsp)
    steps = [dict(st, id=i) for i, st in enumerate(plan["steps"])]
    if not steps:
        return
    ex = plan["seed"]
    numba.prange = c08.PRange
    c08.PRange.seed = core.derive(ex, "pr0") % 1000
    rnd = [is_random(st) for st in steps]
    # groups for the other interpreter: a chain of random calls shares one seed, calls that are not random run alone
    groups, where, cur = [], {}, None
    for st, rn in zip(steps, rnd):
        if not rn:
            where[st["id"]] = (len(groups), 0)
            groups.append(dict(seed=core.derive(ex, "other", st["id"]) % (1 << 32), steps=[st]))
            continue
        if cur is None or st["seed"] is not None or not c["chain"]:
            if not c["chain"]:
                st["seed"] = st["seed"] if st["seed"] is not None else core.derive(ex, "s", st["id"]) % (1 << 31)
            elif st["seed"] is None:
                st["seed"] = core.derive(ex, "s", st["id"]) % (1 << 31)
            cur = len(groups)
            groups.append(dict(seed=st["seed"], steps=[], burns={}))
        elif st.get("burn"):
            groups[cur]["burns"][st["id"]] = st["burn"]
        where[st["id"]] = (cur, len(groups[cur]["steps"]))
        groups[cur]["steps"].append(st)
    other = zygote.ask(c["hash"], dict(world=w, groups=groups, entropy=core.derive(ex, "e1"), prange=core.derive(ex, "pr1") % 1000))
    Sources(core.derive(ex, "e0")).install()
    W = R.World(dsp, w)
    for st in steps:
        operands(W, st)
    np.random.seed(core.derive(ex, "start") % (1 << 32))
    prev_state = None
    for st, rn in zip(steps, rnd):
        name = st.get("op") or st.get("proc") or "text " + st["text"]
        if rn and st["seed"] is not None and (not c["chain"] or where[st["id"]][1] == 0):
            np.random.seed(st["seed"])
        elif rn and st.get("burn"):
            np.random.uniform(size=st["burn"])
        s0 = state()
        res, exc = run_step(dsp, d, W, st)
        s1 = state()
        g, j = where[st["id"]]
        ores, oexc, ost = other[g][j]
        ctx.log(name, rn, exc)
        ctx.probe("call " + name)
        ctx.key(name, rn, c["hash"])
        if s1[1] != s0[1]:
            raise Violation("consumes-generator", f"{name} uses Python's own generator", op=name)
        if not rn and s1[0] != s0[0]:
            raise Violation("consumes-generator", f"{name} is not documented as random but uses the global generator", op=name)
        if exc != oexc:
            raise Violation("outcome-not-reproducible", f"{name}: {exc or 'a result'} here, {oexc or 'a result'} in another interpreter", op=name)
        if exc is None:
            x = core.same(res, ores)
            if x:
                raise Violation("result-not-reproducible", f"{name} ({'random' if rn else 'not random'}): {x}", op=name)
            ctx.nontrivial = True
        if rn:
            if s1[0] != ost:
                raise Violation("generator-left-elsewhere", f"{name} leaves the global generator in another state than alone in another interpreter", op=name)
            if s1[0] != s0[0] and prev_state is not None and s1[0] == prev_state[0] and s0[0] != prev_state[1]:
                raise Violation("generator-reset", f"{name} sets the global generator to a fixed state", op=name)
            if exc is None and s1[0] != s0[0]:
                prev_state = (s1[0], s0[0])
    ctx.fault("other hash seed", len(steps))


# ------------------------------------------------------------------ documented properties under simulated draws
class Draws:
    MODES = ("low", "high", "alt", "const", "real", "real", "outlier", "mid")

    def __init__(self, mode, seed):
        self.mode, self.g, self.n = mode, np.random.default_rng(seed), 0

    def unit(self, size, normal):
        """Draws in (-1, 1) around the middle of the distribution."""
        n = int(np.prod(size)) if size is not None else 1
        k = np.arange(n) + self.n
        self.n += n
        m = self.mode
        top = 1 - 1e-12
        if m == "low":
            v = np.full(n, -1.0 if not normal else -top)
        elif m == "high":
            v = np.full(n, top)
        elif m == "alt":
            v = np.where(k % 2, top, -top)
        elif m == "const":
            v = np.full(n, self.g.uniform(-top, top))
        elif m == "mid":
            v = np.full(n, 1e-3) * (1 + k % 3)
        elif m == "outlier":
            v = np.where(self.g.random(n) < 0.02, np.sign(self.g.random(n) - 0.5) * top, self.g.normal(0, 0.1, n).clip(-0.9, 0.9))
        else:
            v = self.g.normal(0, 1 / 6, n).clip(-top, top) if normal else self.g.uniform(-1, top, n)
        return v.reshape(size) if size is not None else float(v[0])

    def uniform(self, low=0.0, high=1.0, size=None):
        low, high = np.asarray(low, float), np.asarray(high, float)
        if size is None and (low.ndim or high.ndim):
            size = np.broadcast_shapes(low.shape, high.shape)
        v = low + (high - low) * (np.asarray(self.unit(size, False)) + 1) / 2
        return v if size is not None else float(v)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, float), np.asarray(scale, float)
        if size is None and (loc.ndim or scale.ndim):
            size = np.broadcast_shapes(loc.shape, scale.shape)
        v = loc + scale * 6 * np.asarray(self.unit(size, True))
        return v if size is not None else float(v)

    def install(self):
        r = np.random
        r.uniform, r.normal = self.uniform, self.normal
        r.rand = lambda *s: self.uniform(size=s or None)
        r.random = r.random_sample = r.ranf = r.sample = lambda size=None: self.uniform(size=size)
        r.randn = lambda *s: self.normal(size=s or None)
        r.standard_normal = lambda size=None: self.normal(size=size)


class Real:
    names = ("uniform", "normal", "rand", "random", "random_sample", "ranf", "sample", "randn", "standard_normal")

    def __init__(self):
        self.f = {n: getattr(np.random, n) for n in self.names}

    def restore(self):
        for n, f in self.f.items():
            setattr(np.random, n, f)


def gen_draw(r):
    st = dict(g=r.choice(["noise", "noise", "noise", "osc", "osc", "dither", "lpc", "rir", "lfo"]), mode=r.choice(Draws.MODES), s=r.randrange(1 << 30))
    g = st["g"]
    fs = r.choice([4000, 8000, 44100, 48000])
    n = core.loguniform(r, 40, 3000)
    length = r.choice([n / fs, (n + r.random()) / fs, round(n / fs, 4)])
    fade = r.choice(["Linear", "Exponential", "Logarithmic", "NoFade"])
    pad = r.choice([0.0, 0.0, r.randrange(1, 300) / fs, 0.029, 0.0113])
    if g == "noise":
        st.update(fs=fs, l=max(length, 40 / fs), t=r.choice(["White", "Pink", "Red", "Blue", "Violet", "Grey", 0.0, 1.0, -1.0, 0.7, 2.0]), p=r.choice([-10.0, 0.0, -3, -60]), nch=r.choice([1, 1, 2, 4]), fade=fade, pad=pad)
    elif g == "osc":
        st.update(fs=fs, l=max(length, 40 / fs), w=r.choice(["Harmonic", "Square", "Sawtooth", "Triangle"]), f=r.choice([0.01, 0.03, 0.11, 0.2, 0.23]) * fs, p=r.choice([-10.0, 0.0, -20]), nch=r.choice([1, 2, 3]), fade=fade, pad=pad,
                  cut=r.choice([None, None, 0.24, 0.4]))
    elif g == "dither":
        st.update(n=n, nch=r.choice([1, 2]), tri=r.random() < 0.5, e=r.choice([6e-8, 1e-3, 0.01]), trunc=r.random() < 0.3, fs=fs)
    elif g == "lpc":
        st.update(n=core.loguniform(r, 200, 900), nch=r.choice([1, 2]), o=r.choice([2, 4, 8]), win=r.choice([32, 64]), burg=r.random() < 0.5, fs=fs, silent=r.random() < 0.2)
    elif g == "rir":
        st.update(fs=r.choice([4000, 8000]), l=r.choice([0.2, 0.3]), mix=r.choice([0.01, 0.03]))
    else:
        st.update(f=r.choice([1.0, 7.5, 60.0]), w=r.choice(["harmonic", "square", "sawtooth", "triangle"]), n=r.choice([None, 200, 1000]), smooth=r.choice([0, 0, 2.0]))
    return st


def lens(x):
    k = round(x)
    return {k} if abs(x - k) < 1e-6 else {math.floor(x), math.ceil(x)}


def bad(kind, msg, st):
    raise Violation("documented-property", f"{st['g']} under '{st['mode']}' draws: {msg}", what=kind, gen=st["g"])


def check_generated(st, sig, plain, dsp):
    x, y = sig.time_data, plain.time_data
    fs = st["fs"]
    body, pads = lens(st["l"] * fs), lens(st["pad"] * fs)
    if type(sig) is not dsp.Signal or sig.sampling_rate_hz != fs:
        bad("type", f"{type(sig).__name__} at {sig.sampling_rate_hz} Hz", st)
    if x.shape[0] not in {a + b for a in body for b in pads} or x.shape[1] != st["nch"]:
        bad("length", f"{x.shape} for {st['l'] * fs} + {st['pad'] * fs} samples and {st['nch']} channels", st)
    if not np.all(np.isfinite(x)) or not np.all(np.isfinite(y)):
        bad("finite", "values that are not finite", st)
    top = 10 ** (st["p"] / 20)
    if np.any(np.max(np.abs(x), axis=0) > top * (1 + 1e-9)):
        bad("peak", f"peak {np.max(np.abs(x))} above {top}", st)
    if np.any(np.abs(np.max(np.abs(y), axis=0) - top) > top * 1e-9):
        bad("peak", f"peak {np.max(np.abs(y), axis=0)} without a fade, {top} requested", st)
    n = x.shape[0] - min(pads)
    if np.any(x[max(body):] != 0):
        bad("padding", "the padding is not silent", st)
    k = int(0.105 * n) + 2
    if st["fade"] == "NoFade":
        if not core.close(x, y, rtol=1e-12):
            bad("fade", "changed without a fade", st)
    else:
        if not core.close(x[k:min(body) - k], y[k:min(body) - k], rtol=1e-9):
            bad("fade", "the fade reaches into the middle of the signal", st)
        if np.any(np.abs(x) > np.abs(y) * (1 + 1e-9) + 1e-15):
            bad("fade", "the fade amplifies", st)
        for c in range(x.shape[1]):
            for e, f in ((x[:1, c], y[:1, c]), (x[min(body) - 1:min(body), c], y[min(body) - 1:min(body), c])):
                if np.any(np.abs(e) > 1e-3 * np.abs(f) + 1e-12) and len(body) == 1 and n > 45:
                    bad("fade", "the ends are not faded", st)


def slope(st, y, fs):
    """The spectrum follows the requested colour."""
    t = st["t"]
    beta = {"White": 0, "Pink": 1, "Red": 2, "Blue": -1, "Violet": -2}.get(t, t)
    if beta == "Grey" or len(lens(st["l"] * fs)) > 1:
        return
    n = min(lens(st["l"] * fs))
    X = np.abs(np.fft.rfft(y[:n], axis=0))
    f = np.fft.rfftfreq(n, 1 / fs)
    k = (f > 31) & (np.arange(len(f)) < len(f) - 1) & (np.arange(len(f)) > 0)
    if np.sum(k) < 8:
        return
    z = X[k] * f[k][:, None] ** (beta / 2)
    if np.any(np.max(z, axis=0) > 1.1 * np.min(z, axis=0)):
        bad("colour", f"the spectrum deviates from the slope of {t} noise: {np.max(z, axis=0) / np.min(z, axis=0)}", st)


def draws(plan, ctx):
    import dsptoolbox as dsp
    d = R.D(dsp)
    G = d.ge
    real = Real()
    for st in plan["steps"]:
        g = st["g"]

        def run(fn, mode=None):
            real.restore()
            if (mode or st["mode"]) == "real":
                np.random.seed(st["s"] % (1 << 32))
            else:
                Draws(mode or st["mode"], st["s"]).install()
            try:
                return fn()
            except Exception as e:
                if not core.through_lib(e):
                    raise
                bad("raises", repr(e), st)
            finally:
                real.restore()
        if g == "noise":
            t = st["t"] if isinstance(st["t"], float) else G.NoiseType[st["t"]]
            f = lambda fade: run(lambda: G.noise(st["l"], st["fs"], t, st["p"], st["nch"], d.E.FadeType[fade], st["pad"]))
            s, p = f(st["fade"]), f("NoFade")
            check_generated(st, s, p, dsp)
            slope(st, p.time_data, st["fs"])
            if st["mode"] == "real":
                for a in range(1, st["nch"]):
                    if core.close(p.time_data[:, 0], p.time_data[:, a], rtol=1e-3):
                        bad("channels", "two channels carry the same noise", st)
                np.random.seed(st["s"] % (1 << 32))
                a = G.noise(st["l"], st["fs"], t, st["p"], st["nch"], d.E.FadeType[st["fade"]], st["pad"])
                b = G.noise(st["l"], st["fs"], t, st["p"], st["nch"], d.E.FadeType[st["fade"]], st["pad"])
                if not np.array_equal(a.time_data, s.time_data):
                    bad("seed", "the same seed gives another signal", st)
                if core.close(a.time_data, b.time_data, rtol=1e-3):
                    bad("seed", "two calls draw the same noise", st)
        elif g == "osc":
            cut = None if st["cut"] is None else max(st["cut"] * st["fs"], st["f"] * 1.01)
            f = lambda fade: run(lambda: G.oscillator(st["f"], st["fs"], st["l"], G.WaveForm[st["w"]], cut, st["p"], st["nch"], True, d.E.FadeType[fade], st["pad"]))
            s, p = f(st["fade"]), f("NoFade")
            check_generated(st, s, p, dsp)
            n = min(lens(st["l"] * st["fs"]))
            y = p.time_data[:n]
            ph = 2 * np.pi * st["f"] / st["fs"] * np.arange(n)
            harm = [1] if st["w"] == "Harmonic" else list(range(1, 200, 2 if st["w"] in ("Square", "Triangle") else 1))
            lim = (cut or st["fs"] // 2)
            harm = [k for k in harm if k * st["f"] < lim] if st["w"] != "Harmonic" else harm
            B = np.stack([fn(k * ph) for k in harm for fn in (np.sin, np.cos)], axis=1)
            if n > 3 * B.shape[1]:
                co, *_ = np.linalg.lstsq(B, y, rcond=None)
                if not core.close(B @ co, y, rtol=1e-6, atol=1e-7):
                    bad("waveform", "contains components that are not harmonics below the cutoff", st)
                amp = np.hypot(co[0::2], co[1::2])
                want = np.array([{"Harmonic": 1.0, "Square": 1.0 / k, "Sawtooth": 1.0 / k, "Triangle": 1.0 / k ** 2}[st["w"]] for k in harm])[:, None]
                if n * st["f"] / st["fs"] > 3 and not core.close(amp / amp[0], np.repeat(want, amp.shape[1], 1), rtol=1e-4, atol=1e-4):
                    bad("waveform", "harmonics have other amplitudes", st)
            if st["mode"] == "real" and st["nch"] > 1 and core.close(y[:, 0], y[:, 1], rtol=1e-4):
                bad("channels", "uncorrelated channels are identical", st)
        elif g == "dither":
            sig = dsp.Signal(None, so.data(st["s"], st["n"], st["nch"]), st["fs"])
            before = snap.freeze(sig)
            o = run(lambda: d.st.dither(sig, st["tri"], st["e"], None, st["trunc"]))
            if core.same(snap.freeze(sig), before, rtol=0, atol=0):
                bad("input", "the signal handed in was changed", st)
            dif = np.abs(o.time_data - sig.time_data)
            lim = st["e"] * (1 if st["tri"] else 0.5) + (np.abs(sig.time_data) + st["e"]) * (6e-4 if st["trunc"] else 1e-12) + (1e-7 if st["trunc"] else 0)
            if o.time_data.shape != sig.time_data.shape or np.any(dif > lim * (1 + 1e-9)):
                bad("amplitude", f"the dither exceeds its amplitude: {np.max(dif)}", st)
            if st["trunc"] and not np.array_equal(o.time_data, o.time_data.astype(np.float16).astype(float)):
                bad("truncation", "not at 16-bit precision", st)
            if st["mode"] in ("low", "high") and not st["trunc"] and np.max(dif) < 0.9 * st["e"] * (1 if st["tri"] else 0.5):
                bad("amplitude", f"the dither never reaches its amplitude: {np.max(dif)}", st)
        elif g == "lpc":
            x = so.data(st["s"], st["n"], st["nch"])
            if st["silent"]:
                x[:st["n"] // 2] *= 1e-6
            sig = dsp.Signal(None, x, st["fs"])
            a, v, o = run(lambda: (lambda q: q if isinstance(q, tuple) and len(q) == 3 else d.tr.lpc(sig, st["o"], st["win"], False, st["burg"]) + (q,))(d.tr.lpc(sig, st["o"], st["win"], True, st["burg"])))
            if o.time_data.shape != x.shape or o.sampling_rate_hz != st["fs"]:
                bad("length", f"{o.time_data.shape} for {x.shape}", st)
            if not np.all(np.isfinite(o.time_data)):
                bad("finite", "values that are not finite", st)
        elif g == "rir":
            room = lambda: dsp.room_acoustics.ShoeboxRoom([4.0, 5.0, 3.0], 0.4)
            f = lambda tail: run(lambda: (lambda q: (setattr(q, "mixing_time_s", st["mix"]), d.ra.generate_synthetic_rir(q, [1.0, 1.2, 1.3], [2.5, 1.1, 1.5], st["fs"], st["l"], tail, False, max_order=3))[1])(room()))
            a, b = f(False).time_data, f(True).time_data
            if a.shape != b.shape or not np.all(np.isfinite(b)):
                bad("finite", "the noise tail is not finite or changes the length", st)
            k = np.argmax(a[:, 0] != 0) + int(st["mix"] * st["fs"])
            if not core.close(a[:k], b[:k], rtol=1e-9):
                bad("tail", "the noise tail reaches before the mixing time", st)
        else:
            o = dsp.effects.LFO(st["f"], st["w"], True, st["smooth"])
            y = np.asarray(run(lambda: o.get_waveform(2000, st["n"])))
            n = st["n"] or int(2000 / st["f"])
            if y.shape != (n,) or not np.all(np.isfinite(y)):
                bad("finite", f"shape {y.shape} or values that are not finite", st)
            if st["smooth"] == 0 and np.max(np.abs(y)) > 1 + 1e-9:
                bad("peak", f"peak {np.max(np.abs(y))}", st)
        ctx.log(g, st["mode"])
        ctx.key(g, st["mode"], str(st.get("t", st.get("w", ""))))
        ctx.fault("draws: " + st["mode"])
        ctx.nontrivial = True


def execute(plan, ctx):
    if plan["cfg"]["kind"] == "draws":
        draws(plan, ctx)
    else:
        history(plan, ctx)
