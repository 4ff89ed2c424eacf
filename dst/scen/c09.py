"""C09: channel, band and filter containers follow a plain list model."""
import copy
import numpy as np
from .. import core, objs, sched, snap, sigops as so
from ..core import Violation
from .c06 import exc_of

RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("seeded plan: a pool of signals, impulse responses, spectra, multiband signals and filter banks and a history of 2-40 additions, removals, insertions, "
        "permutations, selections, sums, collapses, assignments, appends and copies (valid, rejected, or failing part-way at a seeded external call and repeated); "
        "results join the pool; every pool member is compared with its list model after every step; non-trivial = at least one edit of a container with 2 or more entries")
KEYRULE = "distinct (container kind, edit, previous edit, outcome) combinations"
REAL = ["Signal, ImpulseResponse, Spectrum, MultiBandSignal, FilterBank and the append functions", "numpy"]
STUB = ["external calls made by library code can be made to fail at a seeded position (sys.monitoring seam)"]
ASSUMPTIONS = ["signals have at least as many samples as channels (the library transposes otherwise)",
               "members are not edited behind the back of the container that holds them"]
FAULTS = ["MemoryError", "ValueError", "OSError"]
FS = [8000, 16000]
CAP = 7


# ================================================================= list models
class MSig:
    kind = "sig"

    def __init__(s, cls, ch, fs, cplx, ca):
        s.cls, s.ch, s.fs, s.cplx, s.ca = cls, ch, fs, cplx, ca
        s.limit()

    def limit(s):
        if s.ca:
            m = max(max(np.max(np.abs(np.real(c))), np.max(np.abs(np.imag(c)))) for c in s.ch)
            if m > 1.0:
                s.ch = [c / m for c in s.ch]

    def new(s, ch, cplx=None):
        return MSig(s.cls, [np.array(c) for c in ch], s.fs, s.cplx if cplx is None else cplx, s.ca)

    def set(s, ch, cplx):
        s.ch, s.cplx = [np.array(c) for c in ch], cplx
        s.limit()

    n = property(lambda s: len(s.ch[0]))

    def size(s):
        return len(s.ch)

    def build(s, dsp):
        x = np.stack(s.ch, axis=1)
        return getattr(dsp, s.cls)(None, x if s.cplx else np.real(x), s.fs, constrain_amplitude=s.ca)


class MSpec:
    kind = "spec"

    def __init__(s, f, ch, coh, cplx):
        s.f, s.ch, s.coh, s.cplx = f, ch, coh, cplx

    def size(s):
        return len(s.ch)

    def build(s, dsp, E):
        sp = dsp.Spectrum(np.array(s.f), np.stack(s.ch, axis=1))
        if s.coh is not None:
            sp.set_coherence(np.stack(s.coh, axis=1))
        if s.cplx and len(s.ch) % 2:
            sp.set_interpolator_parameters(E.InterpolationDomain.Complex)
        return sp


class MBand:
    kind = "mbs"

    def __init__(s, bands, same):
        s.bands, s.same = bands, same

    def size(s):
        return len(s.bands)


class MBank:
    kind = "fb"

    def __init__(s, filts, same):
        s.filts, s.same = filts, same     # list of (spec)

    def size(s):
        return len(s.filts)


# ================================================================= generation
def gen_band(r, same):
    return dict(s=r.randrange(1 << 30), fs=None if same else r.choice(FS), dn=0 if same else r.choice([0, 7]))


def gen_filter(r):
    f = objs.rnd_filter_spec(r, FS[0], True)
    f.update(fs=None)
    return f


def gen_obj(r):
    k = r.choice(["sig", "sig", "spec", "mbs", "mbs", "fb", "fb"])
    d = dict(kind=k, seed=r.randrange(1 << 30))
    if k == "sig":
        d.update(cls=r.choice(["Signal", "Signal", "ImpulseResponse"]), nch=r.choice([1, 2, 3, 5]), n=core.loguniform(r, 8, 60), fs=r.choice(FS), cplx=r.random() < 0.25,
                 ca=r.random() < 0.2, scale=r.choice([0.4, 0.4, 1.5]))
    elif k == "spec":
        d.update(nch=r.choice([1, 2, 3]), n=r.choice([9, 17]), cplx=r.random() < 0.4, coh=r.random() < 0.5)
    elif k == "mbs":
        same = r.random() < 0.7
        d.update(same=same, nb=r.choice([0, 1, 2, 3]), nch=r.choice([1, 2, 3]), n=r.choice([10, 24]), fs=r.choice(FS), cplx=r.random() < 0.2, cls=r.choice(["Signal", "ImpulseResponse"]),
                 ca=r.random() < 0.2, scale=r.choice([0.4, 0.4, 1.5]))
        d["fss"] = [d["fs"] if same else r.choice(FS) for _ in range(d["nb"])]
    else:
        same = r.random() < 0.7
        fs = r.choice(FS)
        d.update(same=same, fs=fs, f=[dict(gen_filter(r), fs=fs if same else r.choice(FS)) for _ in range(r.choice([0, 1, 2, 4]))])
    return d


IDX = [-1, -1, 0, 0, 1, 1, 2, 3, -2, 9]
OPS = dict(
    sig=["add", "add", "remove", "remove", "swap", "swap", "get", "sum", "append", "set", "copy", "add_fs", "add_len", "swap_bad", "constrain"],
    spec=["remove", "remove", "swap", "swap", "get", "sum", "append", "trim", "coh", "set", "copy", "swap_bad"],
    mbs=["add", "add", "add", "add_same", "remove", "remove", "swap", "swap", "set", "clear", "collapse", "allbands", "append", "copy", "pop", "add_fs", "add_len", "add_nch", "add_cplx", "add_type",
         "swap_bad", "set_bad"],
    fb=["add", "add_same", "add", "add", "remove", "remove", "swap", "swap", "set", "clear", "append", "copy", "pop", "add_fs", "add_type", "swap_bad", "set_bad", "probe"])


def gen_step(r):
    k = r.choice(["sig", "spec", "mbs", "mbs", "fb", "fb"])
    st = dict(on=k, i=r.randrange(8), op=r.choice(OPS[k]), s=r.randrange(1 << 30), x=r.choice(IDX), nch=r.choice([1, 1, 2]), dn=r.choice([0, 0, -3, 4]), allow=r.random() < 0.8,
              cplx=r.random() < 0.15, n=r.choice([1, 2, 3]), j=r.randrange(8), b=r.random() < 0.5, fsi=r.randrange(2))
    if k == "fb":
        st["f"] = gen_filter(r)
    if r.random() < 0.12:
        st["fault"] = [round(r.random(), 4), r.choice(FAULTS)]
    return st


def generate(r, tier):
    kinds = r.random()
    cfg = dict(pool=[gen_obj(r) for _ in range(r.choice([1, 2, 3, 4]))])
    return dict(cfg=cfg, steps=[gen_step(r) for _ in range(r.choice([2, 4, 8, 14, 25, 40]))])


# ================================================================= execution
def cx(s, n, cplx=False, scale=0.4):
    return so.data(s, n, 1, cplx, scale)[:, 0]


def make(dsp, E, d):
    if d["kind"] == "sig":
        m = MSig(d["cls"], [cx(d["seed"] + i, d["n"], d["cplx"], d["scale"]) for i in range(d["nch"])], d["fs"], d["cplx"], d["ca"])
        return m.build(dsp), m
    if d["kind"] == "spec":
        f = np.linspace(10, 500, d["n"])
        m = MSpec(f, [(x if d["cplx"] else np.abs(x)) for x in (cx(d["seed"] + i, d["n"], d["cplx"]) for i in range(d["nch"]))],
                  [np.abs(cx(d["seed"] + 50 + i, d["n"])) for i in range(d["nch"])] if d["coh"] else None, d["cplx"])
        return m.build(dsp, E), m
    if d["kind"] == "mbs":
        bands = [MSig(d["cls"], [cx(d["seed"] + 10 * b + i, d["n"] + (0 if d["same"] else 3 * b), d["cplx"], d["scale"]) for i in range(d["nch"])], fs, d["cplx"], d["ca"])
                 for b, fs in enumerate(d["fss"])]
        m = MBand(bands, d["same"])
        return dsp.MultiBandSignal([b.build(dsp) for b in bands], same_sampling_rate=d["same"]), m
    m = MBank(list(d["f"]), d["same"])
    return dsp.FilterBank([objs.filt(dsp, f) for f in d["f"]], same_sampling_rate=d["same"]), m


_fcache = {}


def fview(dsp, spec):
    k = core.json_key(spec)
    if k not in _fcache:
        f = objs.filt(dsp, spec)
        f.__dict__.pop("zi", None)
        _fcache[k] = snap.freeze(f)
    return _fcache[k]


# ------------------------------------------------ comparing object and model
def bad(what, msg, **kw):
    raise Violation(what, msg, **kw)


def need(cond, what, msg, **kw):
    if not cond:
        bad(what, msg() if callable(msg) else msg, **kw)


def check_sig(dsp, o, m, who, full=True, op=None):
    td = np.asarray(o.time_data)
    n, nc = m.n, len(m.ch)
    need(type(o).__name__ == m.cls, "type", f"{who}: {type(o).__name__}, model {m.cls}", op=op)
    need(td.shape == (n, nc), "shape", f"{who}: time data {td.shape}, model {(n, nc)}", op=op)
    want = np.stack(m.ch, axis=1)
    x = core.close(td, np.real(want), 1e-9, 1e-12)
    need(x, "samples", lambda: f"{who}: {core.maxdiff(td, np.real(want))}", op=op)
    need(o.is_complex_signal == m.cplx, "complex", f"{who}: is_complex_signal {o.is_complex_signal}, model {m.cplx}", op=op)
    if m.cplx:
        need(core.close(o.time_data_imaginary, np.imag(want), 1e-9, 1e-12), "imaginary", lambda: f"{who}: {core.maxdiff(o.time_data_imaginary, np.imag(want))}", op=op)
    counts = dict(number_of_channels=nc, length_samples=n, sampling_rate_hz=m.fs, length_seconds=n / m.fs)
    for k, v in counts.items():
        need(np.isclose(getattr(o, k), v), "counts", f"{who}: {k} {getattr(o, k)}, model {v}", op=op)
    need(len(o) == n, "counts", f"{who}: len {len(o)}, model {n}", op=op)
    if full:
        md = o.metadata
        for k, v in dict(number_of_channels=nc, signal_length_samples=n, sampling_rate_hz=m.fs, is_complex_signal=m.cplx).items():
            need(md[k] == v, "metadata", f"{who}: metadata {k} {md[k]}, model {v}", op=op)
        it = [np.asarray(c) for c in o]
        need(len(it) == nc and all(core.close(a, np.real(b), 1e-9, 1e-12) for a, b in zip(it, m.ch)), "iteration", f"{who}: iterating gives other channels", op=op)
        need(len(o.time_vector_s) == n, "counts", f"{who}: time vector of length {len(o.time_vector_s)}", op=op)


def check_spec(dsp, o, m, who, op=None):
    d = np.asarray(o.spectral_data)
    want = np.stack(m.ch, axis=1)
    need(d.shape == want.shape, "shape", f"{who}: data {d.shape}, model {want.shape}", op=op)
    need(core.close(o.frequency_vector_hz, m.f), "frequencies", lambda: f"{who}: {core.maxdiff(o.frequency_vector_hz, m.f)}", op=op)
    need(np.iscomplexobj(d) == m.cplx and o.is_complex == m.cplx and o.is_magnitude != m.cplx, "complex", f"{who}: complex {o.is_complex}, model {m.cplx}", op=op)
    need(core.close(d, want, 1e-9, 1e-12), "samples", lambda: f"{who}: {core.maxdiff(d, want)}", op=op)
    need(o.number_of_channels == len(m.ch) and o.number_frequency_bins == len(m.f) and o.length_frequency_bins == len(m.f) and len(o) == len(m.f), "counts", f"{who}: counts", op=op)
    if m.coh == "any":
        return
    need(o.has_coherence == (m.coh is not None), "coherence", f"{who}: has_coherence {o.has_coherence}, model {m.coh is not None}", op=op)
    if m.coh is not None:
        c = np.stack(m.coh, axis=1)
        need(core.close(o.coherence, c), "coherence", lambda: f"{who}: coherence {core.maxdiff(o.coherence, c)}", op=op)


def check_mbs(dsp, o, m, who, op=None):
    nb = len(m.bands)
    need(o.number_of_bands == nb and len(o) == nb and len(o.bands) == nb, "counts", f"{who}: {o.number_of_bands} bands, model {nb}", op=op)
    for i, (b, mb) in enumerate(zip(o.bands, m.bands)):
        check_sig(dsp, b, mb, f"{who}.bands[{i}]", False, op=op)
    need([id(b) for b in o] == [id(b) for b in o.bands], "iteration", f"{who}: iterating gives other bands", op=op)
    need(o.same_sampling_rate == m.same, "counts", f"{who}: same_sampling_rate", op=op)
    md = o.metadata
    need(md["number_of_bands"] == nb, "metadata", f"{who}: metadata {md}", op=op)
    str(o.metadata_str)
    if not nb:
        need(o.length_samples == 0 and o.length_seconds == 0, "counts", f"{who}: length of an empty signal", op=op)
        return
    fss = m.bands[0].fs if m.same else [b.fs for b in m.bands]
    ns = m.bands[0].n if m.same else [b.n for b in m.bands]
    need(o.sampling_rate_hz == fss, "rates", f"{who}: sampling_rate_hz {o.sampling_rate_hz}, model {fss}", op=op)
    need(o.length_samples == ns, "counts", f"{who}: length_samples {o.length_samples}, model {ns}", op=op)
    need(o.number_of_channels == len(m.bands[0].ch), "counts", f"{who}: number_of_channels {o.number_of_channels}, model {len(m.bands[0].ch)}", op=op)
    need(o.is_complex_signal == m.bands[0].cplx, "complex", f"{who}: is_complex_signal", op=op)
    if m.same:
        need(md["sampling_rate_hz"] == fss and md["length_samples"] == ns, "metadata", f"{who}: metadata {md}", op=op)
    need(md["number_of_channels"] == len(m.bands[0].ch), "metadata", f"{who}: metadata {md}", op=op)
    td = o.get_all_time_data()
    if m.same:
        want = np.stack([np.stack(b.ch, axis=1) for b in m.bands], axis=1)
        need(td[1] == fss and core.close(td[0], want if m.bands[0].cplx else np.real(want)), "all-time-data", lambda: f"{who}: {core.maxdiff(td[0], want)}", op=op)
    else:
        need(len(td) == nb and all(fs == b.fs and core.close(x, np.stack(b.ch, axis=1) if b.cplx else np.real(np.stack(b.ch, axis=1))) for (x, fs), b in zip(td, m.bands)),
             "all-time-data", f"{who}: get_all_time_data differs", op=op)


def check_fb(dsp, o, m, who, op=None):
    nf = len(m.filts)
    need(o.number_of_filters == nf and len(o) == nf and len(o.filters) == nf, "counts", f"{who}: {o.number_of_filters} filters, model {nf}", op=op)
    need([id(b) for b in o] == [id(b) for b in o.filters], "iteration", f"{who}: iterating gives other filters", op=op)
    for i, (f, spec) in enumerate(zip(o.filters, m.filts)):
        x = core.same(snap.freeze(f), fview(dsp, spec))
        need(not x, "filters", f"{who}.filters[{i}]: {x}", op=op)
    md = o.metadata
    need(md["number_of_filters"] == nf and o.same_sampling_rate == m.same and md["same_sampling_rate"] == m.same, "metadata", f"{who}: metadata {md}", op=op)
    need(set(md["types_of_filters"]) == {"iir" if f.is_iir else "fir" for f in o.filters}, "metadata", f"{who}: types {md['types_of_filters']}", op=op)
    str(o.metadata_str)
    if nf:
        fss = m.filts[0]["fs"] if m.same else [f["fs"] for f in m.filts]
        need(o.sampling_rate_hz == fss, "rates", f"{who}: sampling_rate_hz {o.sampling_rate_hz}, model {fss}", op=op)
        if m.same:
            need(md["sampling_rate_hz"] == fss, "metadata", f"{who}: metadata {md}", op=op)


def check(dsp, o, m, who, op=None):
    {"sig": check_sig, "spec": check_spec, "mbs": check_mbs, "fb": check_fb}[m.kind](dsp, o, m, who, op=op)


# ------------------------------------------------ the operations
# Each returns (call(object) -> result, apply(model) -> None or [new (getter, model)], valid) with valid True / False / None (doubtful).
def perm(s, n):
    return [int(i) for i in np.random.default_rng(s).permutation(n)]


def badorder(st, n):
    return [[0] * (n + 1), [n] * n, list(range(n))[:-1] + [-1], [[0, 1], [1, 0]], [0] * n if n > 1 else [5]][st["s"] % 5]


def selection(st, n):
    g = np.random.default_rng(st["s"])
    k = st["s"] % 4
    if k == 0:
        i = int(g.integers(0, n))
        return i, [i]
    idx = [int(x) for x in g.integers(0, n, int(g.integers(1, n + 2)))]
    if k == 1:
        return np.array(idx), idx
    if k == 2:
        return [i - n for i in idx], idx
    return idx, idx


def plan_sig(dsp, E, st, o, m, pool):
    op, n, nc = st["op"], m.n, len(m.ch)
    if op == "add":
        nn = n + (st["dn"] if n + st["dn"] >= 2 else 0)
        new = [cx(st["s"] + i, nn, st["cplx"], 0.4) for i in range(min(st["nch"], nn))]
        if nc + len(new) > n:
            return None
        arr = np.stack(new, axis=1)
        arr = arr[:, 0] if arr.shape[1] == 1 and st["b"] else arr
        fit = [np.concatenate([c, np.zeros(max(0, n - nn))])[:n] for c in new]
        ok = st["allow"] or nn == n
        return lambda x: x.add_channel(None, arr.copy(), m.fs, st["allow"]), lambda mm: mm.set(mm.ch + fit, mm.cplx or st["cplx"]) if ok else None, ok
    if op == "add_fs":
        return lambda x: x.add_channel(None, cx(st["s"], n), m.fs + 100), None, False
    if op == "add_len":
        return lambda x: x.add_channel(None, cx(st["s"], n + 2), m.fs, False), None, False
    if op == "remove":
        i = st["x"]
        ok = nc > 1 and -nc <= i < nc
        return lambda x: x.remove_channel(i), lambda mm: mm.set(mm.ch[:i % nc] + mm.ch[i % nc + 1:], mm.cplx), (None if i == -2 and ok else ok)
    if op == "swap":
        p = perm(st["s"], nc)
        return lambda x: x.swap_channels(np.array(p) if st["b"] else p), lambda mm: mm.set([mm.ch[i] for i in p], mm.cplx), True
    if op == "swap_bad":
        return lambda x: x.swap_channels(badorder(st, nc)), None, False
    if op == "get":
        sel, idx = selection(st, nc)
        if len(idx) > n:
            return None
        return lambda x: x.get_channels(sel), lambda mm: mm.new([mm.ch[i] for i in idx]), True
    if op == "sum":
        return lambda x: x.sum_channels(), lambda mm: mm.new([np.sum(np.stack(mm.ch, 1), axis=1)]), True
    if op == "append":
        o2, m2 = pool[st["j"] % len(pool)]
        if m2.kind != "sig" or nc + len(m2.ch) > min(n, 9):
            return None
        ok = m2.fs == m.fs and (st["allow"] or m2.n == m.n)

        def fit(c):
            if m2.n <= n:
                z = np.zeros(n - m2.n, dtype=c.dtype)
                return np.concatenate([c, z] if st["b"] else [z, c])
            return c[:n] if st["b"] else c[m2.n - n:]
        return (lambda x: dsp.append_signals([x, o2], st["allow"], st["b"])), lambda mm: mm.new(mm.ch + [fit(c) for c in m2.ch], mm.cplx or m2.cplx), ok
    if op == "set":
        nn = max(8, n + st["dn"])
        ch = [cx(st["s"] + i, nn, st["cplx"], 1.4 if st["b"] else 0.4) for i in range(st["n"])]
        return lambda x: setattr(x, "time_data", np.stack(ch, axis=1)), lambda mm: mm.set(ch, st["cplx"]), True
    if op == "constrain":
        def ap(mm):
            mm.ca = st["b"]
            mm.limit()
        return lambda x: setattr(x, "constrain_amplitude", st["b"]), ap, True
    if op == "copy":
        return lambda x: x.copy(), lambda mm: copy.deepcopy(mm), True


def plan_spec(dsp, E, st, o, m, pool):
    op, nc, n = st["op"], len(m.ch), len(m.f)

    def sel(l, idx):
        return l if l is None or isinstance(l, str) else [np.array(l[i]) for i in idx]
    if op == "remove":
        i = st["x"]
        ok = nc > 1 and -nc <= i < nc

        def ap(mm):
            idx = [k for k in range(nc) if k != i % nc]
            mm.ch, mm.coh = sel(mm.ch, idx), sel(mm.coh, idx)
        return lambda x: x.remove_channel(i), ap, (None if i == -2 and ok else ok)
    if op == "swap":
        p = perm(st["s"], nc)

        def ap(mm):
            mm.ch, mm.coh = sel(mm.ch, p), sel(mm.coh, p)
        return lambda x: x.swap_channels(p), ap, True
    if op == "swap_bad":
        return lambda x: x.swap_channels(badorder(st, nc)), None, False
    if op == "get":
        s_, idx = selection(st, nc)
        if len(idx) > n:
            return None
        return lambda x: x.get_channels(s_), lambda mm: MSpec(mm.f.copy(), sel(mm.ch, idx), sel(mm.coh, idx), mm.cplx), True
    if op == "sum":
        pw = st["b"]

        def ap(mm):
            a = np.stack(mm.ch, axis=1)
            y = np.sqrt(np.sum(np.abs(a) ** 2, axis=1)) if pw else a.sum(axis=1)
            return MSpec(mm.f.copy(), [y], "any", mm.cplx and not pw)
        return lambda x: x.sum_channels(pw), ap, True
    if op == "append":
        o2, m2 = pool[st["j"] % len(pool)]
        if m2.kind != "spec" or len(m2.f) != n or not np.allclose(m2.f, m.f) or nc + len(m2.ch) > n:
            return None
        if m.cplx and not m2.cplx and st["b"]:
            return lambda x: dsp.append_spectra([x, o2], True), None, False
        c = m.cplx and m2.cplx and st["b"]
        return lambda x: dsp.append_spectra([x, o2], st["b"]), lambda mm: MSpec(mm.f.copy(), [(np.array(y) if c else np.abs(y)) for y in mm.ch + m2.ch], "any", c), True
    if op == "trim":
        lo = st["s"] % 3
        hi = n - 1 - (st["s"] // 3) % 3
        if hi - lo + 1 < max(nc, 4):
            return None

        def ap(mm):
            mm.f = mm.f[lo:hi + 1]
            mm.ch = [c[lo:hi + 1] for c in mm.ch]
            mm.coh = mm.coh if mm.coh is None or isinstance(mm.coh, str) else [c[lo:hi + 1] for c in mm.coh]
        return lambda x: x.trim(float(m.f[lo]), float(m.f[hi])), ap, True
    if op == "coh":
        c = [np.abs(cx(st["s"] + i, n)) for i in range(nc)]

        def ap(mm):
            mm.coh = c
        return lambda x: x.set_coherence(np.stack(c, axis=1)), ap, True
    if op == "set":
        k = min(st["n"], n)
        ch = [(x if m.cplx else np.abs(x)) for x in (cx(st["s"] + i, n, m.cplx) for i in range(k))]

        def ap(mm):
            mm.ch, mm.coh = ch, (None if mm.coh is None else "any")
        return lambda x: setattr(x, "spectral_data", np.stack(ch, axis=1)), ap, True
    if op == "copy":
        return lambda x: x.copy(), lambda mm: copy.deepcopy(mm), True


def new_band(st, m, **kw):
    if m.bands:
        r = m.bands[0]
        n = kw.get("n", r.n if m.same else max(8, r.n + st["dn"]))
        fs = kw.get("fs", r.fs if m.same else FS[st["fsi"]])
        return MSig(r.cls, [cx(st["s"] + i, n, kw.get("cplx", r.cplx)) for i in range(kw.get("nch", len(r.ch)))], fs, kw.get("cplx", r.cplx), r.ca)
    return MSig("Signal", [cx(st["s"] + i, 12) for i in range(st["nch"])], FS[st["fsi"]], False, False)


def plan_mbs(dsp, E, st, o, m, pool):
    op, nb = st["op"], len(m.bands)
    if op == "add":
        b = new_band(st, m)
        i = st["x"]

        def ap(mm):
            mm.bands = mm.bands + [b] if i == -1 or not mm.bands else (lambda l: (l.insert(i, b), l)[1])(list(mm.bands))
        return lambda x: x.add_band(b.build(dsp), i), ap, True if nb < 7 else None
    if op == "add_same":       # the very object already contained, once more
        if not nb or nb > 6:
            return None
        i, q = st["x"], st["s"] % nb

        def ap(mm):
            l = list(mm.bands)
            l.insert(len(l) if i == -1 else i, mm.bands[q])
            mm.bands = l
        return lambda x: x.add_band(x.bands[q], i), ap, True
    if op in ("remove", "pop"):
        i = st["x"]
        ok = nb > 0 and -nb <= i < nb

        def ap(mm):
            got = mm.bands[i]
            mm.bands = [b for k, b in enumerate(mm.bands) if k != i % nb]
            return copy.deepcopy(got) if op == "pop" else None
        return lambda x: (lambda r: r.copy() if op == "pop" else None)(x.remove_band(i, return_band=op == "pop")), ap, (None if i == -2 and ok else ok)
    if op == "swap":
        if nb == 0:
            return None
        p = perm(st["s"], nb)

        def ap(mm):
            mm.bands = [mm.bands[i] for i in p]
        return lambda x: x.swap_bands(p), ap, True
    if op == "swap_bad":
        if not nb:
            return None
        return lambda x: x.swap_bands(badorder(st, nb)), None, False
    if op == "set":
        t = MBand([new_band(dict(st, s=st["s"], fsi=st["fsi"]), MBand([], m.same))], m.same)
        bs = [t.bands[0]]
        for k in range(1, st["n"]):
            bs.append(new_band(dict(st, s=st["s"] + 20 * k, fsi=(st["fsi"] + k) % 2), MBand(bs[:1], m.same)))

        def ap(mm):
            mm.bands = bs
        return lambda x: setattr(x, "bands", (tuple if st["b"] else list)(b.build(dsp) for b in bs)), ap, True
    if op == "clear":
        def ap(mm):
            mm.bands = []
        return lambda x: setattr(x, "bands", None if st["b"] else []), ap, True
    if op == "collapse":
        if not nb:
            return None

        def ap(mm):
            a = sum(np.stack(b.ch, axis=1) for b in mm.bands)
            return mm.bands[0].new([a[:, i] for i in range(a.shape[1])])
        return lambda x: x.collapse(), ap, m.same
    if op == "allbands":
        if not nb:
            return None
        c = st["s"] % len(m.bands[0].ch)
        if not m.same:
            return lambda x: x.get_all_bands(c), lambda mm: ("lists", [b.ch[c] for b in mm.bands], [b.fs for b in mm.bands]), True
        if nb > m.bands[0].n:
            return None
        return lambda x: x.get_all_bands(c), lambda mm: mm.bands[0].new([b.ch[c] for b in mm.bands]), True
    if op == "append":
        o2, m2 = pool[st["j"] % len(pool)]
        if m2.kind != "mbs" or not nb or not m2.bands:
            return None
        if len(m.bands[0].ch) + len(m2.bands[0].ch) > 6 or m.bands[0].cplx != m2.bands[0].cplx:
            return None
        fs1, fs2 = [b.fs for b in m.bands], [b.fs for b in m2.bands]
        ok = m.same == m2.same and fs1 == fs2 and nb == len(m2.bands) and (st["allow"] or [b.n for b in m.bands] == [b.n for b in m2.bands])

        def fit(c, n):
            z = np.zeros(max(0, n - len(c)), dtype=c.dtype)
            return (np.concatenate([c, z])[:n] if st["b"] else np.concatenate([z, c])[-n:])
        return (lambda x: dsp.append_signals([x, o2], st["allow"], st["b"]),
                lambda mm: MBand([a.new(a.ch + [fit(c, a.n) for c in b.ch], a.cplx) for a, b in zip(mm.bands, m2.bands)], mm.same), ok)
    if op == "copy":
        return lambda x: x.copy(), lambda mm: copy.deepcopy(mm), True
    if op == "add_type":
        return lambda x: x.add_band([1, 2, 3], st["x"]), None, False
    if not nb:
        return None
    if op == "add_fs":
        return (lambda x: x.add_band(new_band(st, m, fs=m.bands[0].fs + 50).build(dsp), st["x"]), None, False) if m.same else None
    if op == "add_len":
        return (lambda x: x.add_band(new_band(st, m, n=m.bands[0].n + 2).build(dsp), st["x"]), None, False) if m.same else None
    if op == "add_nch":
        return lambda x: x.add_band(new_band(st, m, nch=len(m.bands[0].ch) + 1).build(dsp), st["x"]), None, False
    if op == "add_cplx":
        return lambda x: x.add_band(new_band(st, m, cplx=not m.bands[0].cplx).build(dsp), st["x"]), None, False
    if op == "set_bad":
        other = new_band(st, m, nch=len(m.bands[0].ch) + 1)
        return lambda x: setattr(x, "bands", [new_band(st, m).build(dsp), other.build(dsp)]), None, False


def plan_fb(dsp, E, st, o, m, pool):
    op, nf = st["op"], len(m.filts)
    f = dict(st["f"], fs=(m.filts[0]["fs"] if m.same and nf else FS[st["fsi"]]))
    if op == "add":
        i = st["x"]

        def ap(mm):
            mm.filts = mm.filts + [f] if i == -1 or not mm.filts else (lambda l: (l.insert(i, f), l)[1])(list(mm.filts))
        return lambda x: x.add_filter(objs.filt(dsp, f), i), ap, True if nf < 8 else None
    if op == "add_same":
        if not nf or nf > 7:
            return None
        i, q = st["x"], st["s"] % nf

        def ap(mm):
            l = list(mm.filts)
            l.insert(len(l) if i == -1 else i, mm.filts[q])
            mm.filts = l
        return lambda x: x.add_filter(x.filters[q], i), ap, True
    if op in ("remove", "pop"):
        i = st["x"]
        ok = nf > 0 and -nf <= i < nf

        def ap(mm):
            got = mm.filts[i]
            mm.filts = [b for k, b in enumerate(mm.filts) if k != i % nf]
            return ("filter", got) if op == "pop" else None
        return lambda x: (lambda r: r if op == "pop" else None)(x.remove_filter(i, op == "pop")), ap, (None if i < -1 and ok else ok)
    if op == "swap":
        if nf == 0:
            return None
        p = perm(st["s"], nf)

        def ap(mm):
            mm.filts = [mm.filts[i] for i in p]
        return lambda x: x.swap_filters(p), ap, True
    if op == "swap_bad":
        if not nf:
            return None
        return lambda x: x.swap_filters(badorder(st, nf)), None, False
    if op == "set":
        fs = [dict(f, seed=f["seed"] + k, fs=f["fs"] if m.same else FS[(st["fsi"] + k) % 2]) for k in range(st["n"])]

        def ap(mm):
            mm.filts = fs
        return lambda x: setattr(x, "filters", (tuple if st["b"] else list)(objs.filt(dsp, q) for q in fs)), ap, True
    if op == "clear":
        def ap(mm):
            mm.filts = []
        return lambda x: setattr(x, "filters", None if st["b"] else []), ap, True
    if op == "append":
        o2, m2 = pool[st["j"] % len(pool)]
        if m2.kind != "fb" or not nf or not m2.filts or nf + len(m2.filts) > 8:
            return None
        ok = m.same == m2.same and (m.filts[0]["fs"] == m2.filts[0]["fs"] if m.same else None if [q["fs"] for q in m.filts] == [q["fs"] for q in m2.filts] else None)
        return lambda x: dsp.append_filterbanks([x, o2]), lambda mm: MBank(mm.filts + m2.filts, mm.same), ok
    if op == "copy":
        return lambda x: x.copy(), lambda mm: copy.deepcopy(mm), True
    if op == "add_type":
        return lambda x: x.add_filter(7, st["x"]), None, False
    if op == "probe":
        if not nf or not m.same:
            return None

        def call(x):
            s = dsp.Signal(None, core.arr(st["s"], 40, 2), m.filts[0]["fs"])
            return [b.time_data for b in x.filter_signal(s, E.FilterBankMode.Parallel).bands]
        return call, lambda mm: ("parallel", [objs.ref_filter(objs.filt(dsp, q), core.arr(st["s"], 40, 2)) for q in mm.filts]), True
    if not nf:
        return None
    if op == "add_fs":
        return (lambda x: x.add_filter(objs.filt(dsp, dict(f, fs=f["fs"] + 50)), st["x"]), None, False) if m.same and f["k"] != "iir" else None
    if op == "set_bad":
        return lambda x: setattr(x, "filters", [objs.filt(dsp, f), "no filter"]), None, False


def execute(plan, ctx):
    import dsptoolbox as dsp
    from dsptoolbox.standard import enums as E
    _fcache.clear()
    pool = [make(dsp, E, d) for d in plan["cfg"]["pool"]]
    for i, (o, m) in enumerate(pool):
        check(dsp, o, m, f"new {m.kind}", op="new")
    prev = None
    for k, st in enumerate(plan["steps"]):
        cand = [i for i, (_, m) in enumerate(pool) if m.kind == st["on"]]
        if not cand:
            continue
        i = cand[st["i"] % len(cand)]
        o, m = pool[i]
        p = {"sig": plan_sig, "spec": plan_spec, "mbs": plan_mbs, "fb": plan_fb}[m.kind](dsp, E, st, o, m, pool)
        if p is None:
            continue
        call, ap, valid = p
        opn = f"{m.kind}.{st['op']}"
        who = f"step {k} {opn}"
        if m.kind in ("sig", "spec"):
            multi = len(m.ch) > 1
        else:
            multi = m.size() > 1
        ctx.nontrivial = ctx.nontrivial or multi
        if st.get("fault"):
            u, name = st["fault"]
            n, _, _ = sched.count_calls(lambda: call(copy.deepcopy(o)))
            if n:
                f = sched.Fault(1 + int(u * n) % n, exc_of(name))
                err = None
                with f:
                    try:
                        call(o)
                    except Exception as e:
                        err = e
                if f.fired:
                    ctx.fault("external call fails: " + name)
                if err is None:
                    # went through: continue from here
                    if not f.fired and ap is not None and valid is True:
                        r = ap(m)
                    elif f.fired or valid is None:
                        # swallowed by the library: the result is judged like an ordinary one
                        if ap is not None and valid is not False:
                            ap(m)
                    else:
                        bad("invalid-accepted", f"{who} was accepted", op=opn)
                    check(dsp, o, m, who + f" (fault {name} absorbed at {f.site})", op=opn)
                    continue
                try:
                    check(dsp, o, m, who + f" failed with {name} at {f.site}", op=opn)
                except Violation as v1:
                    m2 = copy.deepcopy(m)
                    if ap is None or valid is False:
                        raise
                    ap(m2)
                    try:
                        check(dsp, o, m2, who, op=opn)
                    except Violation:
                        raise v1
                    pool[i] = (o, m2)
                    ctx.log(k, opn, "failed late")
                    continue
        res = err = None
        try:
            res = call(o)
        except Exception as e:
            err = e
            if not core.through_lib(e):
                raise
        outcome = "ok" if err is None else "rejected"
        ctx.key(m.kind, st["op"], prev, outcome)
        prev = st["op"]
        ctx.log(k, opn, outcome)
        ctx.probe(opn + " " + outcome)
        if err is not None:
            ctx.fault("rejected edit")
            if valid is True:
                bad("valid-rejected", f"{who}: {err!r}", op=opn, tb=core.short_tb(err))
        else:
            if valid is False:
                bad("invalid-accepted", f"{who} was accepted", op=opn)
            new = ap(m)
            if isinstance(new, tuple):
                check_value(dsp, new, res, who, opn)
            elif new is not None:
                check(dsp, res, new, who + " result", op=opn)
                if len(pool) < CAP:
                    pool.append((res, new))
                else:
                    pool[st["j"] % CAP] = (res, new)
                    if st["j"] % CAP == i:
                        o, m = res, new
        for q, (o2, m2) in enumerate(pool):
            check(dsp, o2, m2, who + (" on this object" if o2 is o else f" on another object (pool {q})"), op=opn)


def check_value(dsp, new, res, who, op):
    if new[0] == "lists":
        need(list(res[1]) == new[2] and len(res[0]) == len(new[1]) and all(core.close(a, b) for a, b in zip(res[0], new[1])), "all-bands", f"{who}: get_all_bands differs", op=op)
    elif new[0] == "filter":
        x = core.same(snap.freeze(res), fview(dsp, new[1]))
        need(not x, "popped", f"{who}: {x}", op=op)
    elif new[0] == "parallel":
        need(len(res) == len(new[1]), "parallel", f"{who}: {len(res)} outputs for {len(new[1])} filters", op=op)
        for j, (a, b) in enumerate(zip(res, new[1])):
            need(core.close(a, b, 1e-6, 1e-9), "parallel", lambda: f"{who}: output {j}: {core.maxdiff(a, b)}", op=op)
