"""C01: every channel of a real-time filter is its own stream."""
import numpy as np
from .. import core, models
from ..core import Violation

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("seeded plan: 1-3 live filters (17 structures, random orders/coefficients, sometimes built from shared "
        "coefficient objects) and a random schedule of per-channel sample pushes, resets, channel-count changes and "
        "offline calls; non-trivial = at least two channels or two instances interleaved and 20 samples pushed")
KEYRULE = "structure x channel count x (channels with different stream lengths) x reset/rechannel/offline-call seen mid-stream"
REAL = ["all real-time filter classes", "Filter/ImpulseResponse/FilterBank used to configure them", "numpy, scipy"]
STUB = ["the audio host: its choice of channel, order, resets and offline calls is the simulated schedule"]


def generate(r, tier):
    n_inst = r.choice([1, 1, 1, 2, 2, 3])
    specs = [models.gen_spec(r) for _ in range(n_inst)]
    if n_inst > 1 and r.random() < 0.5:
        specs[1] = specs[0]
    nch = [r.choice([1, 2, 2, 3, 4, 7]) for _ in specs]
    steps = []
    n = r.choice([6, 15, 30, 60])
    mode = r.choice(["block", "sample", "mixed"])
    for _ in range(n):
        i = r.randrange(n_inst)
        x = r.random()
        if x < 0.84:
            if r.random() < 0.25:   # frame-wise round robin over all channels, random order
                steps.append(["frame", i, r.randrange(1 << 20), r.choice([1, 2, 5])])
            else:
                k = 1 if mode == "sample" else r.choice([1, 2, 3, 8, 25] if r.random() < 0.995 else [1100, 2600])
                steps.append(["push", i, r.randrange(16), k, r.choice(["noise", "noise", "impulse", "dc", "zeros", "neg", "sparse", "int", "large", "small"])])
        elif x < 0.88:
            steps.append(["reset", i])
        elif specs[i]["kind"] == "svf" and x < 0.91:
            steps.append(["tune", i, r.choice([1, 2, 3, 5]), round(r.uniform(50, 10000), 1), round(r.uniform(0.2, 2.5), 3), r.random() < 0.25])
        elif x < 0.92:
            steps.append(["nch", i, r.choice([1, 2, 3, 5])])
        else:
            steps.append(["offline", i, r.choice([1, 2, 3]), r.choice([8, 40]), r.choice(["filter", "ir"])])
    return dict(cfg=dict(specs=specs, nch=nch, share=r.random() < 0.5, bare=r.random() < 0.4), steps=steps)


class Inst:
    pass


def execute(plan, ctx):
    import dsptoolbox as dsp
    shared = {} if plan["cfg"]["share"] else None
    insts = []
    for spec, n in zip(plan["cfg"]["specs"], plan["cfg"]["nch"]):
        t = Inst()
        t.spec = spec
        t.f = ctx.lib("build/" + spec["kind"], models.build, spec, dsp, shared)
        if n > 1 or not plan["cfg"].get("bare"):     # one channel is what a new filter has
            ctx.lib("set_n_channels/" + spec["kind"], t.f.set_n_channels, n)
        t.hist = [[] for _ in range(n)]
        t.out = [[] for _ in range(n)]
        t.marks = set()
        insts.append(t)
        ctx.log("new", spec, n)
    pushed = 0
    for si, st in enumerate(plan["steps"]):
        t = insts[st[1] % len(insts)]
        kind = t.spec["kind"]
        if st[0] == "push":
            ch = st[2] % len(t.hist)
            pushed += push(ctx, t, ch, stim(plan["seed"] + si, st[3], st[4]))
        elif st[0] == "frame":
            order = list(range(len(t.hist)))
            for f in range(st[3]):
                core.rng_for(st[2], f).shuffle(order)
                for ch in order:
                    pushed += push(ctx, t, ch, stim(plan["seed"] + si * 131 + ch + f * 17, 1, "noise"))
        elif st[0] == "reset":
            check(ctx, t)
            ctx.lib("reset/" + kind, t.f.reset_state)
            restart(t, len(t.hist))
            t.marks.add("r")
            ctx.log("reset", st[1])
        elif st[0] == "nch":
            check(ctx, t)
            ctx.lib("set_n_channels/" + kind, t.f.set_n_channels, st[2])
            restart(t, st[2])
            t.marks.add("n")
            ctx.log("nch", st[1], st[2])
        elif st[0] == "tune":
            check(ctx, t)
            if st[5]:       # outside the documented range: rejected, and the stream goes on
                try:
                    t.f.set_parameters(models.FS, st[4], st[2])
                    ctx.log("accepted")
                except AssertionError:
                    ctx.log("rejected")
                    continue
                raise Violation("bad-parameter-accepted/svf", "a cutoff above the Nyquist frequency was accepted")
            else:
                ctx.lib("set_parameters/" + kind, t.f.set_parameters, st[3], st[4], st[2])
                t.spec = dict(t.spec, f=st[3], res=st[4])
            restart(t, st[2])
            t.marks.add("t")
        elif st[0] == "offline":
            offline(ctx, dsp, t, st, plan["seed"] + si)
    for t in insts:
        check(ctx, t)
        lens = {len(h) for h in t.hist}
        ctx.key(t.spec["kind"], min(len(t.hist), 4), len(lens) > 1, "".join(sorted(t.marks)), len(insts))
        ctx.probe("kind:" + t.spec["kind"])
    ctx.probe("samples", pushed)
    ctx.sim_time += pushed / models.FS
    ctx.nontrivial = pushed >= 20 and (len(insts) > 1 or any(len(t.hist) > 1 for t in insts))


def stim(seed, n, how):
    if how == "noise":
        return core.arr(seed, n, scale=0.8)
    x = np.zeros(n)
    g = np.random.default_rng(seed % (1 << 32))
    if how == "sparse":
        return np.where(g.uniform(size=n) < 0.7, 0.0, core.arr(seed, n))
    if how == "int":
        return g.integers(-2, 3, n).astype(float)
    if how == "large":
        return core.arr(seed, n, scale=1e5)
    if how == "small":
        return core.arr(seed, n, scale=1e-7)
    if how == "impulse":
        x[0] = 1.0
    elif how == "dc":
        x += 0.7
    elif how == "neg":
        x -= 0.3
    return x


def push(ctx, t, ch, x):
    f = t.f.process_sample
    for v in x:
        y = ctx.lib("process_sample/" + t.spec["kind"], f, float(v), ch)
        t.out[ch].append(y)
    t.hist[ch].extend(map(float, x))
    ctx.logarr("push%d" % ch, np.asarray(t.out[ch][-len(x):], dtype=float))
    return len(x)


def restart(t, n):
    t.hist = [[] for _ in range(n)]
    t.out = [[] for _ in range(n)]


def check(ctx, t):
    for ch, (h, o) in enumerate(zip(t.hist, t.out)):
        if not h:
            continue
        want = models.reference(t.spec, h)
        got = np.asarray(o, dtype=float).reshape(want.shape)
        scale = float(np.max(np.abs(want))) + 1e-5 * float(np.max(np.abs(h)))
        core.require_close("stream-differs/" + t.spec["kind"], got, want, rtol=1e-6, atol=1e-7 * scale,
                           channel=ch, n_channels=len(t.hist))


def offline(ctx, dsp, t, st, seed):
    kind = t.spec["kind"]
    if not hasattr(t.f, "filter_signal"):
        return
    n, nch = st[3], st[2]
    ctx.log("offline", kind, n, nch, st[4])
    ctx.probe("offline:" + kind)
    if st[4] == "ir" and hasattr(t.f, "get_ir"):
        x = np.zeros((n, 1))
        x[0] = 1
        r = ctx.lib("get_ir/" + kind, t.f.get_ir, n)
        if kind == "svf":       # documented in code: resets and runs on the live state
            check(ctx, t)
            restart(t, 1)
    else:
        x = core.arr(seed, n, nch, scale=0.8)
        s = dsp.Signal.from_time_data(x.copy(), models.FS, False)
        r = ctx.lib("filter_signal/" + kind, t.f.filter_signal, s)
        if kind in ("svf", "lat_iir", "lat_sos", "lat_fir") and nch != len(t.hist):
            check(ctx, t)
            restart(t, nch)
    t.marks.add("o")
    if kind == "svf":
        y = np.stack([b.time_data for b in r.bands], axis=1)   # sample, band, channel
    else:
        y = r.time_data
    if kind in ("svf", "lat_iir", "lat_sos", "lat_fir"):
        # these run on (and advance) the live state: the samples join the streams
        for ch in range(x.shape[1]):
            t.hist[ch].extend(map(float, x[:, ch]))
            t.out[ch].extend(list(y[..., ch]))
    else:
        for ch in range(x.shape[1]):
            want = models.reference(t.spec, x[:, ch])
            if st[4] == "ir" and np.max(np.abs(want)) > 1 and np.max(np.abs(y[:, ch])) < 1 + 1e-9:
                want = want / np.max(np.abs(want))   # peak-constrained impulse response
            core.require_close("offline-differs/" + kind, y[:, ch], want, rtol=1e-6,
                               atol=1e-7 * (1 + float(np.max(np.abs(want)))))
