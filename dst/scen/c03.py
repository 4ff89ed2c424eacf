"""C03: chunked stateful filtering = filtering everything in one stateful call."""
import numpy as np
from .. import core, objs
from ..core import Violation

RUNS = {"quick": 5000, "thorough": 100000}
RULE = ("seeded plan: one filter, filter bank (three modes), multiband/multirate bank or Linkwitz-Riley bank and a stream cut into "
        "random chunks (optionally restricted to some channels), with stateless calls, re-initialisations and channel-count "
        "changes in between; non-trivial = at least two chunks of one segment were filtered")
KEYRULE = "target x coefficient form x mode x channel count x number of chunks bucket x events (re-init, channel change, stateless call, restricted channels)"
REAL = ["Filter, FilterBank, LRFilterBank, GammaToneFilterBank, MultiBandSignal, Signal", "scipy.signal"]
STUB = ["the streaming host: chunk sizes, calls in between"]
FS = 48000


def generate(r, tier):
    t = r.choice(["filter"] * 6 + ["fb"] * 3 + ["lr"] * 3 + ["mb", "mr"] + (["gamma"] if r.random() < 0.1 else []))
    cfg = dict(t=t, nch=r.choice([1, 1, 2, 3, 4] * 4 + [7]), cls=r.choice(["Signal", "Signal", "ImpulseResponse"]), mode=r.choice(["Parallel", "Sequential", "Summed"]))
    if t == "filter":
        cfg["f"] = [objs.rnd_filter_spec(r)]
    elif t == "fb":
        cfg["f"] = [objs.rnd_filter_spec(r) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6]))]
    elif t == "lr":
        n = r.choice([1, 2, 3, 3, 4, 5])
        fr = sorted(round(core.math.exp(r.uniform(4.6, 9.6)), 1) for _ in range(n))
        cfg["lr"] = dict(freqs=fr, order=[r.choice([2, 4, 4, 8, 1, 3]) for _ in range(n)])
        cfg["mode"] = r.choice(["Parallel", "Parallel", "Summed"])
    elif t in ("mb", "mr"):
        n = r.choice([1, 2, 3])
        fss = [FS] * n if t == "mb" else [r.choice([48000, 24000, 16000]) for _ in range(n)]
        cfg["f"] = [objs.rnd_filter_spec(r, fs=f) for f in fss]
    else:
        cfg["gamma"] = [500.0, round(r.uniform(1500, 3000), 0)]
        cfg["mode"] = "Parallel"
    steps = []
    for _ in range(r.choice([2, 3, 5, 9, 16])):
        x = r.random()
        if x < 0.72:
            ch = None
            if t == "filter" and r.random() < 0.2:
                ch = sorted(r.sample(range(4), r.choice([1, 1, 2])))
            steps.append(["chunk", r.choice([2, 3, 5, 8, 17, 64, 130, 400] * 4 + [1024, 3001]), ch, r.choice(core.DATA)])
        elif x < 0.77:
            steps.append(["init"])
        elif x < 0.81:
            steps.append(["nch", r.choice([1, 2, 3])])
        else:
            steps.append(["stateless", r.choice(["filter", "zero_phase", "ir", "tf", "coeffs", "gd", "copy_stream", "order", "zp", "show", "resample"]), r.choice([40, 90])])
    return dict(cfg=cfg, steps=steps)


def build(dsp, cfg):
    from dsptoolbox import FilterBank
    from dsptoolbox import filterbanks as fbm
    if cfg["t"] == "filter":
        return objs.filt(dsp, cfg["f"][0])
    if cfg["t"] in ("fb", "mb", "mr"):
        fl = [objs.filt(dsp, f) for f in cfg["f"]]
        return FilterBank(fl, same_sampling_rate=len({f["fs"] for f in cfg["f"]}) == 1)
    if cfg["t"] == "lr":
        return fbm.linkwitz_riley_crossovers(cfg["lr"]["freqs"], cfg["lr"]["order"], FS)
    return fbm.auditory_filters_gammatone(cfg["gamma"], 1.0, FS)


def rates(cfg):
    return [f["fs"] for f in cfg["f"]] if cfg["t"] == "mr" else [FS]


def apply(dsp, obj, cfg, xs, channels=None):
    """xs: list of input arrays (one per band for mb/mr). Returns list of complex/real output
    arrays, one per output band."""
    from dsptoolbox import MultiBandSignal, Signal, ImpulseResponse, FilterBankMode
    C = ImpulseResponse if cfg["cls"] == "ImpulseResponse" else Signal

    def S(x, fs=FS):
        return C(None, x.copy(), fs, constrain_amplitude=False)
    if cfg["t"] == "filter":
        r = obj.filter_signal(S(xs[0]), channels=channels, activate_zi=True)
    elif cfg["t"] in ("mb", "mr"):
        bands = [S(x, f["fs"]) for x, f in zip(xs, cfg["f"])]
        r = obj.filter_multiband_signal(MultiBandSignal(bands, same_sampling_rate=len({f["fs"] for f in cfg["f"]}) == 1), activate_zi=True)
    else:
        r = obj.filter_signal(S(xs[0]), mode=FilterBankMode[cfg["mode"]], activate_zi=True)
    bands = r.bands if isinstance(r, MultiBandSignal) else [r]
    out = []
    for b in bands:
        y = b.time_data
        if b.time_data_imaginary is not None:
            y = y + 1j * b.time_data_imaginary
        out.append(y)
    return out


def n_in(cfg):
    return len(cfg["f"]) if cfg["t"] in ("mb", "mr") else 1


def execute(plan, ctx):
    import dsptoolbox as dsp
    from dsptoolbox import Signal, FilterBankMode, FilterCoefficientsType
    cfg = plan["cfg"]
    t = cfg["t"]
    obj = ctx.lib("build/" + t, build, dsp, cfg)
    if t == "mr" and len({f["fs"] for f in cfg["f"]}) == 1:
        t = "mb"
    nch, ni = cfg["nch"], n_in(cfg)
    want_nch = nch
    marks, nchunks, maxseg = set(), 0, 0

    def fresh():
        return [[[] for _ in range(nch)] for _ in range(ni)], [[] for _ in range(nch)], [0]
    hist, out, cnt = fresh()

    def verify():
        nonlocal maxseg
        maxseg = max(maxseg, cnt[0])
        if not cnt[0]:
            return
        for ch in range(nch):
            if not out[ch]:
                continue
            xs = [np.concatenate(hist[i][ch])[:, None] for i in range(ni)]
            amp = max(1.0, max(float(np.max(np.abs(x))) for x in xs))
            twin = build(dsp, cfg)
            want = ctx.lib("whole-call/" + t, apply, dsp, twin, cfg, xs)
            for b, w in enumerate(want):
                got = np.concatenate([o[b] for o in out[ch]])
                core.require_close("chunks-differ/" + t, got, w[:, 0], rtol=1e-7, atol=1e-8 * amp, channel=ch, band=b)
            if t == "filter":
                zero = apply(dsp, build(dsp, cfg), cfg, [xs[0] * 0])[0]
                core.require_close("whole-not-filter/" + t, want[0] - zero, objs.ref_filter(build(dsp, cfg), xs[0]), rtol=1e-7, atol=1e-8 * amp)

    for si, st in enumerate(plan["steps"]):
        if st[0] in ("chunk", "init") and want_nch != nch:
            verify()
            nch = want_nch
            hist, out, cnt = fresh()
            marks.add("n")
        if st[0] == "chunk":
            n = max(st[1], nch, 2)   # shorter chunks than channels are read as transposed, single samples cannot be made a signal
            xs = []
            for i in range(ni):
                m = n
                xs.append(core.shaped(plan["seed"] + si * 31 + i, st[3], m, nch))
            chs = None if st[2] is None else [c for c in st[2] if c < nch] or [0]
            ys = ctx.lib("chunk/" + t, apply, dsp, obj, cfg, xs, chs)
            for y in ys:
                if y.shape != xs[0].shape:
                    raise Violation("chunk-shape/" + t, f"{y.shape} for input {xs[0].shape}")
                ctx.logarr("y", y)
            for ch in range(nch):
                if chs is not None and ch not in chs:
                    core.require_close("bypass/" + t, ys[0][:, ch], xs[0][:, ch])
                    continue
                for i in range(ni):
                    hist[i][ch].append(xs[i][:, ch])
                out[ch].append([y[:, ch] for y in ys])
            if chs is not None:
                marks.add("c")
            cnt[0] += 1
            nchunks += 1
            ctx.sim_time += n / FS
        elif st[0] == "init":
            verify()
            ctx.lib("initialize_zi/" + t, obj.initialize_zi, nch)
            hist, out, cnt = fresh()
            marks.add("i")
            ctx.log("init")
        elif st[0] == "nch":
            want_nch = st[1]
            ctx.log("nch", want_nch)
        else:
            marks.add("s")
            stateless(dsp, ctx, obj, cfg, t, st, nch, plan["seed"] + si)
    verify()
    ctx.probe("target:" + t)
    ctx.probe("chunks", nchunks)
    for m in marks:
        ctx.probe("event:" + m)
    ctx.key(t, ",".join(f["k"] for f in cfg.get("f", [])), cfg["mode"] if t in ("fb", "lr") else "", nch, min(maxseg, 5), "".join(sorted(marks)), len(cfg.get("lr", {}).get("freqs", [])))
    ctx.nontrivial = maxseg >= 2


def stateless(dsp, ctx, obj, cfg, t, st, nch, seed):
    """Calls that must leave the running state alone."""
    from dsptoolbox import Signal, FilterBankMode, FilterCoefficientsType, MultiBandSignal
    k, n = st[1], st[2]
    fs = cfg["f"][0]["fs"] if "f" in cfg else FS
    s = Signal(None, core.arr(seed, n, max(1, nch - 1 + seed % 2)), fs, constrain_amplitude=False)
    ctx.log("stateless", k)
    L = lambda what, f, *a, **kw: ctx.lib(what + "/" + t, f, *a, **kw)  # noqa
    if t == "filter":
        if k == "filter":
            y = L("stateless", obj.filter_signal, s)
            core.require_close("stateless-result/filter", y.time_data, objs.ref_filter(obj, s.time_data), rtol=1e-7, atol=1e-8)
        elif k == "zero_phase" and int(obj.order) * 3 + 10 < n and int(obj.order) > 0:
            L("zero_phase", obj.filter_signal, s, zero_phase=True)
        elif k == "ir":
            L("get_ir", obj.get_ir, n)
        elif k == "tf":
            L("get_transfer_function", obj.get_transfer_function, np.linspace(10, fs / 2 - 10, 7))
        elif k == "coeffs":
            for m in FilterCoefficientsType:
                L("get_coefficients", obj.get_coefficients, m)
        elif k == "gd":
            L("get_group_delay", obj.get_group_delay, np.linspace(fs * 0.05, fs * 0.2, 5))
        elif k == "copy_stream":
            L("copy stream", obj.copy().filter_signal, s, activate_zi=True)
        elif k == "order":
            obj.order, obj.metadata, obj.metadata_str, str(obj), obj.is_iir, obj.is_fir
        elif k == "resample" and n % 2 == 0:
            L("filter_and_resample_signal", obj.filter_and_resample_signal, s, fs // 2)
        return
    if t == "lr" or t in ("fb", "gamma"):
        if k == "filter":
            L("stateless", obj.filter_signal, s, mode=FilterBankMode[cfg["mode"]])
        elif k == "ir":
            L("get_ir", obj.get_ir, n, FilterBankMode[cfg["mode"]]) if t != "lr" else L("get_ir", obj.get_ir, n)
        elif k == "copy_stream":
            L("copy stream", obj.copy().filter_signal, s, mode=FilterBankMode[cfg["mode"]], activate_zi=True)
        elif k == "tf" and t == "fb":
            L("get_transfer_function", obj.get_transfer_function, np.linspace(10, fs / 2 - 10, 7), FilterBankMode[cfg["mode"]])
        return
    if t in ("mb", "mr") and k == "filter":
        b = [Signal(None, core.arr(seed + i, n, nch), f["fs"], constrain_amplitude=False) for i, f in enumerate(cfg["f"])]
        L("stateless", obj.filter_multiband_signal, MultiBandSignal(b, same_sampling_rate=t == "mb"))
