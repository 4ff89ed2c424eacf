"""C14: channels of one real-time filter served by different threads."""
import numpy as np
from .. import core, models, sched
from ..core import Violation

RUNS = {"quick": 6000, "thorough": 120000}
RULE = ("seeded plan: one real-time filter, filter chain or block engine with 2-4 channels (optionally a second live filter), "
        "2-4 host threads that own disjoint channels, and a seeded list of preemptions at library line boundaries; "
        "non-trivial = the scheduler really moved control between threads inside library code")
KEYRULE = "distinct executed interleavings (hash of the sequence of (line count, thread) switches) per filter structure"
REAL = ["all real-time filter classes and block engines", "FilterChain", "real Python threads", "numpy, scipy"]
STUB = ["thread scheduler: one thread runs at a time, every preemption is decided by the seed at library line boundaries (numpy/scipy calls are atomic)",
        "threading.Lock/RLock created by library code hand control to the simulated scheduler"]
ASSUMPTIONS = ["preemption points are Python line boundaries of library code; C code of numpy/scipy is atomic"]
FS = 48000
BLOCK = ("os", "up")


def generate(r, tier):
    n_t = r.choice([2, 2, 3, 4])
    nch = max(n_t, r.choice([2, 3, 4]))
    insts = []
    for _ in range(r.choice([1, 1, 2])):
        if r.random() < 0.3:
            bs = r.choice([1, 3, 4, 8])
            insts.append(dict(kind=r.choice(BLOCK), L=r.choice([1, 3, bs, 2 * bs + 1, 20]), bs=bs, cseed=r.randrange(1 << 30)))
        else:
            insts.append(models.gen_spec(r))
    steps = []
    for _ in range(r.choice([4, 8, 16])):
        steps.append([r.randrange(n_t), r.randrange(len(insts)), r.randrange(8), r.choice([1, 2, 4])])
    return dict(cfg=dict(insts=insts, nch=nch, n_t=n_t, share=r.random() < 0.5), steps=steps, switches=sched.gen_switches(r, n_t))


def execute(plan, ctx):
    import dsptoolbox as dsp
    from dsptoolbox.classes.fir_filter_realtime import FIRFilterOverlapSave, FIRUniformPartitioned
    c = plan["cfg"]
    nch, n_t = c["nch"], max(2, c["n_t"])
    nch = max(nch, n_t)
    shared = {} if c["share"] else None
    fs, hist, out = [], [], []
    for s in c["insts"]:
        if s["kind"] in BLOCK:
            h = core.arr(s["cseed"], s["L"])
            f = ctx.lib("build/" + s["kind"], FIRFilterOverlapSave if s["kind"] == "os" else FIRUniformPartitioned, h)
            ctx.lib("prepare/" + s["kind"], f.prepare, s["bs"], nch)
        else:
            f = ctx.lib("build/" + s["kind"], models.build, s, dsp, shared)
            ctx.lib("set_n_channels/" + s["kind"], f.set_n_channels, nch)
        fs.append(f)
        hist.append([[] for _ in range(nch)])
        out.append([[] for _ in range(nch)])
    work = [[] for _ in range(n_t)]
    for si, (t, i, ch, k) in enumerate(plan["steps"]):
        t %= n_t
        own = [x for x in range(nch) if x % n_t == t]
        ch = own[ch % len(own)]
        i %= len(fs)
        s = c["insts"][i]
        n = k * s["bs"] if s["kind"] in BLOCK else k
        work[t].append((i, ch, core.arr(plan["seed"] + si, n, scale=0.8)))
        hist[i][ch].append(work[t][-1][2])

    def task(items):
        def run():
            for i, ch, x in items:
                s = c["insts"][i]
                if s["kind"] in BLOCK:
                    for b in x.reshape(-1, s["bs"]):
                        out[i][ch].extend(fs[i].process_block(b, ch))
                else:
                    for v in x:
                        out[i][ch].append(fs[i].process_sample(float(v), ch))
        return run
    sc = sched.Scheduler([task(w) for w in work], plan["switches"]).run()
    for t in sc.tasks:
        if t.exc is not None:
            if isinstance(t.exc, Exception) and core.through_lib(t.exc):
                raise Violation("unexpected-exception", f"{type(t.exc).__name__}: {t.exc}", tb=core.short_tb(t.exc))
            raise t.exc
    ctx.log("trace", sc.trace)
    for i, s in enumerate(c["insts"]):
        for ch in range(nch):
            if not hist[i][ch]:
                continue
            x = np.concatenate(hist[i][ch])
            if s["kind"] in BLOCK:
                want = np.convolve(x, core.arr(s["cseed"], s["L"]))[:len(x)]
            else:
                want = models.reference(s, x)
            got = np.asarray(out[i][ch], dtype=float)
            ctx.logarr("out", got)
            core.require_close("stream-differs/" + s["kind"], got.reshape(want.shape), want, rtol=1e-6,
                               atol=1e-7 * (1 + float(np.max(np.abs(want)))), channel=ch)
        ctx.probe("kind:" + s["kind"])
        ctx.key(s["kind"], core.derive(0, sc.trace) % (1 << 40))
    ctx.probe("preemptions", sc.switched)
    ctx.fault("thread preempted inside library code", sc.switched)
    ctx.sim_time += sum(len(x) for h in hist for cc in h for x in cc) / FS
    ctx.nontrivial = sc.switched > 0
