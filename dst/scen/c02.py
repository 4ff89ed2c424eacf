"""C02: block convolution engines = linear convolution for any block schedule."""
import numpy as np
from .. import core
from ..core import Violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("seeded plan: 1-2 live engines (overlap-save, uniformly partitioned, multichannel), random filter length, block "
        "size and channel count, random order of per-channel blocks with resets and re-preparations; the input buffer is "
        "overwritten by the host after every block and all outputs are compared at the end; non-trivial = at least 3 "
        "blocks after start and more than one partition or a non-power-of-two size")
KEYRULE = "engine x blocks per filter length (partitions) x FFT size parity x channels x whether channels ran out of step x reset/re-prepare seen"
REAL = ["FIRFilterOverlapSave", "FIRUniformPartitioned", "FIRUniformPartitionedMultichannel", "scipy.fft"]
STUB = ["the audio host: block order, resets, re-preparation and its reused input buffer"]
FS = 48000


def generate(r, tier):
    eng = []
    for _ in range(r.choice([1, 1, 2])):
        bs = r.choice([1, 2, 3, 5, 7, 8, 13, 16, 32, 48, 64, 100] * 4 + [256, 500, 1024])
        kind = r.choice(["os", "up", "upm"])
        L = r.choice([1, 2, 3, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 3 * bs + 1, core.loguniform(r, 1, 300), core.loguniform(r, 1, 300 if r.random() < 0.9 else 3000)])
        nch = r.choice([1, 2, 2, 3, 4] * 3 + [6, 9])
        eng.append(dict(kind=kind, L=max(1, L), bs=bs, nch=nch, fseed=r.randrange(1 << 30),
                        amp=r.choice([0.3, 1.0, 3.0]), via=r.choice(["ctor", "ctor", "filter"]), coef=r.choice(["noise"] * 5 + ["sparse", "impulse", "sym", "tail0", "delay"])))
        if kind == "upm":
            eng[-1]["L"] = max(eng[-1]["L"], nch, 2)
    steps = []
    for _ in range(r.choice([5, 12, 30, 70] if r.random() < 0.98 else [300])):
        e = r.randrange(len(eng))
        x = r.random()
        if x < 0.9:
            steps.append(["block", e, r.randrange(12), r.choice(core.DATA)])
        elif x < 0.95:
            steps.append(["reset", e])
        else:
            steps.append(["prepare", e, r.choice([1, 2, 4, 5, 9, 16, 33, 64]), r.choice([1, 2, 3])])
    if r.random() < 0.3:   # strict round robin as an audio host would do
        how = core.DATA if r.random() < 0.5 else ["noise"]
        steps = [["block", 0, i % eng[0]["nch"], r.choice(how)] for i in range(len(steps))]
    return dict(cfg=dict(eng=eng), steps=steps)


def coefficients(c, *shape):
    h = core.shaped(c["fseed"], c["coef"] if c["coef"] in ("sparse", "impulse") else "noise", *shape, scale=c["amp"])
    if c["coef"] == "sym":
        h = h + h[::-1]
    elif c["coef"] == "tail0":
        h[len(h) // 2 + 1:] = 0
    elif c["coef"] == "delay":
        h[:-1] = 0
    return h


class E:
    pass


def execute(plan, ctx):
    import dsptoolbox as dsp
    from dsptoolbox.classes.fir_filter_realtime import (
        FIRFilterOverlapSave, FIRUniformPartitioned, FIRUniformPartitionedMultichannel)
    es = []
    for c in plan["cfg"]["eng"]:
        e = E()
        e.c, e.kind, e.nch, e.bs = c, c["kind"], c["nch"], c["bs"]
        if e.kind == "upm":
            e.h = coefficients(c, c["L"], c["nch"])
            e.f = ctx.lib("build/upm", FIRUniformPartitionedMultichannel, e.h.copy())
            ctx.lib("prepare/upm", e.f.prepare, e.bs)
        else:
            e.h = coefficients(c, c["L"])
            C = FIRFilterOverlapSave if e.kind == "os" else FIRUniformPartitioned
            if c["via"] == "filter":
                e.f = ctx.lib("build/" + e.kind, C.from_filter, dsp.Filter.from_ba(e.h.copy(), [1.0], FS))
            else:
                e.f = ctx.lib("build/" + e.kind, C, e.h.copy())
            ctx.lib("prepare/" + e.kind, e.f.prepare, e.bs, e.nch)
        e.buf = np.zeros((e.bs, e.nch))
        e.marks, e.nblocks = set(), 0
        start(e)
        es.append(e)
        ctx.log("new", c)
    for si, st in enumerate(plan["steps"]):
        e = es[st[1] % len(es)]
        if st[0] == "block":
            x = core.shaped(plan["seed"] + si, st[3], e.bs, e.nch, scale=0.8)
            e.buf[:] = x
            e.nblocks += 1
            if e.kind == "upm":
                y = ctx.lib("process_block/upm", e.f.process_block, e.buf)
                chs = range(e.nch)
                for ch in chs:
                    e.hist[ch].append(x[:, ch])
                    e.out[ch].append(y[:, ch] if np.ndim(y) == 2 else y)
            else:
                ch = st[2] % e.nch
                y = ctx.lib("process_block/" + e.kind, e.f.process_block, e.buf[:, ch], ch)
                e.hist[ch].append(x[:, ch])
                e.out[ch].append(y)
            ctx.logarr("blk", y)
            e.buf[:] = 9e9   # the host reuses its buffer
        elif st[0] == "reset":
            verify(e)
            ctx.lib("reset/" + e.kind, e.f.reset_state)
            start(e)
            e.marks.add("r")
            ctx.log("reset")
        elif st[0] == "prepare":
            verify(e)
            e.bs = st[2]
            if e.kind == "upm":
                ctx.lib("prepare/upm", e.f.prepare, e.bs)
            else:
                e.nch = st[3]
                ctx.lib("prepare/" + e.kind, e.f.prepare, e.bs, e.nch)
            e.buf = np.zeros((e.bs, e.nch))
            start(e)
            e.marks.add("p")
            ctx.log("prepare", e.bs, e.nch)
    for e in es:
        verify(e)
        ctx.probe("engine:" + e.kind)
        parts = e.h.shape[0] // e.bs + 1
        step = len({len(h) for h in e.hist}) > 1
        ctx.key(e.kind, min(parts, 6), e.h.shape[0] % e.bs == 0, (e.h.shape[0] + e.bs) % 2, e.nch, step, "".join(sorted(e.marks)))
        ctx.probe("blocks", e.nblocks)
        if step:
            ctx.probe("channels out of step")
        ctx.sim_time += e.nblocks * e.bs / FS
        if e.nblocks >= 3 and (parts > 1 or e.bs & (e.bs - 1)):
            ctx.nontrivial = True


def start(e):
    e.hist = [[] for _ in range(e.nch)]
    e.out = [[] for _ in range(e.nch)]


def verify(e):
    for ch in range(e.nch):
        if not e.hist[ch]:
            continue
        x = np.concatenate(e.hist[ch])
        h = e.h[:, ch] if e.h.ndim == 2 else e.h
        want = np.convolve(x, h)[:len(x)]
        if any(np.shape(o) != (e.bs,) for o in e.out[ch]):
            raise Violation("block-shape/" + e.kind, f"output block shape {np.shape(e.out[ch][0])}, block size {e.bs}")
        got = np.concatenate(e.out[ch])
        core.require_close("not-convolution/" + e.kind, got, want, rtol=0, atol=1e-9 * (1e-7 + np.max(np.abs(x))) * (1 + np.sum(np.abs(h))),
                           )
