"""C06: cached spectra, CSMs, spectrograms and time vectors are never stale."""
import copy, pickle
import numpy as np
from .. import core, sched, sigops as so
from ..core import Violation

RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("seeded plan: a Signal or ImpulseResponse with the cache on, off or toggled, and a history of data changes, channel edits, "
        "parameter changes, queries, plots, copies, save/restore, writes into returned arrays and library calls that fail at a seeded point; "
        "non-trivial = at least one answer was requested after both an earlier query and a later change or fault, with the cache on")
KEYRULE = "distinct (last change kind, cache on/off, query kind, faulted?) combinations"
REAL = ["Signal, ImpulseResponse, their plots and spectral helpers", "numpy, scipy, matplotlib (Agg)", "pickle"]
STUB = ["external calls made by library code can be made to fail at a seeded position (sys.monitoring seam)"]
ASSUMPTIONS = ["time data is changed through the public setters and editing methods; a write into the live time_data array is only made when the "
               "object never caches", "expected answers come from a newly built signal of the same class with the cache off"]
FAULTS = ["MemoryError", "ValueError", "LinAlgError", "OSError"]


def generate(r, tier):
    cls = r.choice(["Signal", "Signal", "ImpulseResponse"])
    cache = r.choice(["on", "on", "on", "off", "never"])
    cfg = dict(cls=cls, n=core.loguniform(r, 24, 700), nch=r.choice([1, 2, 2, 3]), cplx=r.random() < 0.15, fs=r.choice([8000, 44100, 48000]),
               cache=cache, constrain=r.random() < 0.15, seed=r.randrange(1 << 30))
    steps = []
    for _ in range(r.choice([3, 5, 8, 12, 20])):
        x = r.random()
        if x < 0.38:
            st = dict(op="get", what=r.choice(so.GETTERS[:3] + ["spectrum", "time"]), force=r.random() < 0.08, scribble=r.random() < 0.3)
        elif x < 0.5:
            st = dict(op="plot", **so.gen_plot(r, cls == "ImpulseResponse"))
        elif x < 0.56:
            st = dict(op="td", n=r.choice([None, core.loguniform(r, 24, 700)]), nch=r.choice([None, None, 1, 2, 3]), cplx=r.random() < 0.1,
                      scale=r.choice([0.5, 0.5, 1.7]))
        elif x < 0.64:
            st = dict(op=r.choice(["remove", "swap", "add"]), a=r.randrange(16))
        elif x < 0.70:
            st = dict(op="sparams", p=so.gen_spec_params(r))
        elif x < 0.80:
            k = r.choice(["method", "scaling", "smoothing", "smoothing"])
            st = dict(op=k, v={"method": r.choice(so.METHODS), "scaling": r.choice(so.SCALINGS), "smoothing": r.choice([0, 1, 3, 6])}[k])
        elif x < 0.85:
            st = dict(op="gparams", p=so.gen_sgram_params(r))
        elif x < 0.89 and cache != "never":
            st = dict(op="cache", v=r.random() < 0.6)
        elif x < 0.91:
            st = dict(op="fs", v=r.choice([8000, 16000, 44100, 48000]))
        elif x < 0.93:
            st = dict(op=r.choice(["window", "unwindow"])) if cls == "ImpulseResponse" else dict(op="calibrated", v=r.random() < 0.5)
        elif x < 0.96:
            st = dict(op=r.choice(["copy", "pickle", "derive"])) if r.random() < 0.75 else dict(op="elsewhere", v=r.choice([["Kaiser", 5.0], ["Gaussian", 8.0]]), g=r.random() < 0.3)
        elif x < 0.97:
            st = dict(op="constrain", v=r.random() < 0.5)
        elif cache == "never":
            st = dict(op="inplace", a=r.randrange(1 << 20))
        else:
            st = dict(op="badcall", k=r.choice(["td3", "neg_smooth", "method_type", "remove", "fs", "swap", "imag"]))
        if r.random() < 0.12 and st["op"] in ("get", "plot", "td", "add", "swap", "remove"):
            st["fault"] = [round(r.random(), 4), r.choice(FAULTS)]
        steps.append(st)
    if r.random() < 0.7:
        k = r.randrange(len(steps) + 1)
        steps[k:k] = burst(r, cls, cache)
    return dict(cfg=cfg, steps=steps)


def burst(r, cls, cache):
    """One answer, a change of one single thing, the same answer again."""
    st = [] if cache == "never" else [dict(op="cache", v=True)]
    what = r.choice(["spectrum", "spectrum", "csm", "spectrogram", "time"])
    ask = dict(op="get", what=what, force=False, scribble=False)
    fft = r.random() < 0.6
    if what in ("spectrum", "csm"):
        st += [dict(op="sparam1", k="method", v="FFT" if fft else "WelchPeriodogram"), dict(op="sparam1", k="scaling", v=r.choice(so.SCALINGS))]
        keys = ["scaling", "smoothing", "pad_to_fast_length", "method"] if fft else ["window_length_samples", "window_type", "overlap_percent", "detrend", "average", "scaling", "method"]
        k = r.choice(keys)
        v = dict(scaling=so.SCALINGS, smoothing=[0, 1, 3, 6], pad_to_fast_length=[True, False], method=so.METHODS, window_length_samples=[16, 32, 64, 128], window_type=so.WINDOWS,
                 overlap_percent=[0, 25, 50, 75], detrend=[True, False], average=["mean", "median"])[k]
        change = [dict(op="sparam1", k=k, v=r.choice(v)), dict(op="sparam1", k=k, v=r.choice(v))] if r.random() < 0.7 else []
    else:
        k = r.choice(["window_length_samples", "window_type", "overlap_percent", "fft_length_samples", "detrend", "padding", "scaling"])
        v = dict(window_length_samples=[16, 32, 64, 128], window_type=so.WINDOWS, overlap_percent=[0.0, 25.0, 50.0, 75.0], fft_length_samples=[None, 128, 256], detrend=[True, False],
                 padding=[True, False], scaling=so.SCALINGS)[k]
        change = [dict(op="gparam1", k=k, v=r.choice(v)), dict(op="gparam1", k=k, v=r.choice(v))] if r.random() < 0.7 and what == "spectrogram" else []
    if not change:
        if cls == "ImpulseResponse" and r.random() < 0.7:
            change = [dict(op=x) for x in r.choice([["window", "unwindow"], ["window", "window"], ["window", "window", "unwindow"]])]
        else:
            change = [r.choice([dict(op="fs", v=r.choice([8000, 44100, 48000])), dict(op="td", n=None, nch=None, cplx=False, scale=0.5), dict(op="swap", a=1), dict(op="remove", a=r.randrange(4)),
                                dict(op="constrain", v=True), dict(op="td", n=r.choice([30, 300]), nch=None, cplx=True, scale=1.7)])]
    st.append(ask)
    for c in change:
        st += [c, ask]
    return st


def exc_of(name):
    if name == "LinAlgError":
        return np.linalg.LinAlgError("injected")
    return {"MemoryError": MemoryError, "ValueError": ValueError, "OSError": OSError}[name]("injected")


def with_fault(ctx, fault, clone_call, call):
    """Run call() with the fault at fraction u of the external calls it makes."""
    u, name = fault
    n, _, _ = sched.count_calls(clone_call)
    if n == 0:
        return None, None, False
    f = sched.Fault(1 + int(u * n) % n, exc_of(name))
    res = err = None
    with f:
        try:
            res = call()
        except Exception as e:
            err = e
    if f.fired:
        ctx.fault("external call fails: " + name)
        ctx.log("fault", f.k)
    return res, err, f.fired


class World:
    """The signal under test with the settings it must have."""

    def __init__(self, s, cls, spec, gram, window=None, cal=False):
        self.s, self.cls, self.spec, self.gram, self.window, self.cal = s, cls, spec, gram, window, cal

    def fresh(self, dsp, E):
        C = getattr(dsp, self.cls)
        s = self.s
        f = C(None, np.array(s.time_data), s.sampling_rate_hz, constrain_amplitude=False)
        if s.time_data_imaginary is not None:
            f.time_data_imaginary = np.array(s.time_data_imaginary)
        f.set_spectrum_parameters(**so.params(E, self.spec))
        f.set_spectrogram_parameters(**so.params(E, self.gram))
        f.calibrated_signal = self.cal
        if self.window is not None:
            f.set_window(self.window.copy())
        return f


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        if not core.through_lib(e):
            raise
        return None, e


def execute(plan, ctx):
    import dsptoolbox as dsp
    E = so.enums(dsp)
    c = plan["cfg"]
    C = getattr(dsp, c["cls"])
    s = C(None, so.data(c["seed"], c["n"], c["nch"], c["cplx"]), c["fs"], constrain_amplitude=c["constrain"], activate_cache=c["cache"] == "on")
    spec = dict(so.SPEC_DEFAULT)
    if c["cls"] == "ImpulseResponse":
        spec["method"] = "FFT"
    spec["window_length_samples"], gram = 64, dict(so.SGRAM_DEFAULT, window_length_samples=64)
    s.set_spectrum_parameters(**so.params(E, spec))
    s.set_spectrogram_parameters(**so.params(E, gram))
    w = World(s, c["cls"], spec, gram)
    others = []
    asked, dirty, last = False, False, "none"

    def check(w, what, force=False, scribble=False, fault=None, tag=""):
        nonlocal asked, dirty
        want, werr = attempt(lambda: so.get(w.fresh(dsp, E), what))
        if fault:
            cl = copy.deepcopy(w.s)
            got, gerr, fired = with_fault(ctx, fault, lambda: so.get(cl, what, force), lambda: so.get(w.s, what, force))
            if fired and gerr is not None:
                dirty = True
                return
            if got is None and gerr is None:
                got, gerr = attempt(lambda: so.get(w.s, what, force))
        else:
            got, gerr = attempt(lambda: so.get(w.s, what, force))
        ctx.key(last, bool(w.s.activate_cache), what, bool(fault))
        if w.s.activate_cache and asked and dirty:
            ctx.nontrivial = True
        if (werr is None) != (gerr is None) or (werr is not None and type(werr) is not type(gerr)):
            raise Violation("different-outcome", f"{what}: cached object {gerr!r}, new signal {werr!r}", where=what)
        if werr is not None:
            return
        for k, (a, b) in enumerate(zip(got, want)):
            if not core.close(np.asarray(a), np.asarray(b), rtol=1e-8, atol=1e-12 + 1e-9 * float(np.max(np.abs(b), initial=0))):
                raise Violation("stale", f"{what}[{k}] after {last}{tag}: {core.maxdiff(a, b)}", where=what)
        ctx.logarr(what, got[-1])
        asked = True
        if scribble and what != "time":
            for a in got:
                a *= 0
                a += 3
        elif scribble:
            try:
                got[0][...] = -1.0
            except ValueError:
                pass
            dirty = True

    for si, st in enumerate(plan["steps"]):
        op, s = st["op"], w.s
        sd = core.derive(plan["seed"], si) % (1 << 40)
        fault = st.get("fault")
        if op == "get":
            check(w, st["what"], st["force"], st["scribble"], fault)
            ctx.probe("get " + st["what"])
            continue
        if op == "plot":
            d = dict(st)
            want, werr = attempt(lambda: so.plot(w.fresh(dsp, E), d, E))
            if fault:
                cl = copy.deepcopy(s)
                got, gerr, fired = with_fault(ctx, fault, lambda: so.plot(cl, d, E), lambda: so.plot(s, d, E))
                if not fired:
                    continue
            else:
                got, gerr = attempt(lambda: so.plot(s, d, E))
                if (werr is None) != (gerr is None):
                    raise Violation("different-outcome", f"plot {d['p']}: cached object {gerr!r}, new signal {werr!r}", where="plot " + d["p"])
                if werr is None:
                    for a, b in zip(got, want):
                        if not core.close(a, b, rtol=1e-6, atol=1e-7):
                            raise Violation("stale-plot", f"plot {d['p']} after {last}: {core.maxdiff(a, b)}", where="plot " + d["p"])
            dirty, last = True, "plot " + d["p"] + ("!" if fault else "")
            ctx.probe("plot " + d["p"])
            asked = True
            continue
        n, nch = s.time_data.shape
        call = None
        if op == "td":
            nn = st["n"] or n
            x = so.data(sd, max(nn, 4), st["nch"] or nch, st["cplx"], st["scale"])
            call = lambda t: setattr(t, "time_data", x)
        elif op == "remove":
            call = lambda t: t.remove_channel(st["a"] % nch if st["a"] % 3 else -1)
        elif op == "swap":
            order = list(np.random.default_rng(sd).permutation(nch))
            call = lambda t: t.swap_channels(order)
        elif op == "add":
            if nch >= 4:
                continue
            x = so.data(sd, max(4, n + (st["a"] % 5) - 2), 1 + st["a"] % 2)
            call = lambda t: t.add_channel(None, x, t.sampling_rate_hz)
        elif op == "sparams":
            p = dict(so.SPEC_DEFAULT, window_length_samples=64, **{})
            p.update(st["p"])
            s.set_spectrum_parameters(**so.params(E, p))
            w.spec = p
        elif op == "sparam1":
            w.spec = dict(w.spec, **{st["k"]: st["v"]})
            s.set_spectrum_parameters(**so.params(E, w.spec))
        elif op == "gparam1":
            w.gram = dict(w.gram, **{st["k"]: st["v"]})
            s.set_spectrogram_parameters(**so.params(E, w.gram))
        elif op == "elsewhere":
            # another signal of the program uses a window with another parameter
            o = dsp.Signal(None, so.data(sd, 40, 1), 8000)
            (o.set_spectrogram_parameters if st["g"] else o.set_spectrum_parameters)(window_type=so.window(E, st["v"]), window_length_samples=16)
            o.get_spectrogram() if st["g"] else o.get_spectrum()
        elif op == "gparams":
            p = dict(so.SGRAM_DEFAULT)
            p.update(st["p"])
            s.set_spectrogram_parameters(**so.params(E, p))
            w.gram = p
        elif op == "method":
            s.spectrum_method = E.SpectrumMethod[st["v"]]
            w.spec = dict(w.spec, method=st["v"])
        elif op == "scaling":
            s.spectrum_scaling = E.SpectrumScaling[st["v"]]
            w.spec = dict(w.spec, scaling=st["v"])
        elif op == "smoothing":
            s.spectrum_smoothing = st["v"]
            w.spec = dict(w.spec, smoothing=st["v"])
        elif op == "cache":
            s.activate_cache = bool(st["v"])
        elif op == "fs":
            s.sampling_rate_hz = st["v"]
        elif op == "calibrated":
            s.calibrated_signal = bool(st["v"])
            w.cal = bool(st["v"])
        elif op == "window":
            w.window = np.abs(core.arr(sd, n, nch)) + 0.1
            s.set_window(w.window.copy())
        elif op == "unwindow":
            s.clear_time_window()
            w.window = None
        elif op == "constrain":
            before = np.array(s.time_data)
            s.constrain_amplitude = bool(st["v"])
            if st["v"]:
                w.window = None   # documented: setting (rescaled) data clears the window
        elif op == "inplace":
            s.time_data[st["a"] % n, st["a"] % nch] += 0.25
        elif op == "copy":
            others.append(World(s, w.cls, w.spec, w.gram, w.window, w.cal))
            w = World(s.copy(), w.cls, w.spec, w.gram, w.window, w.cal)
        elif op == "pickle":
            w.s = pickle.loads(pickle.dumps(s))
        elif op == "derive":
            others.append(World(s, w.cls, w.spec, w.gram, w.window, w.cal))
            d = s.copy_with_new_time_data(so.data(sd, n, nch))
            sp = dict(w.spec, method="FFT") if w.cls == "ImpulseResponse" else w.spec
            w = World(d, w.cls, sp, w.gram, None, w.cal)
        elif op == "badcall":
            bad = {"td3": lambda: setattr(s, "time_data", np.zeros((3, 4, 5))), "neg_smooth": lambda: setattr(s, "spectrum_smoothing", -2),
                   "method_type": lambda: setattr(s, "spectrum_method", 3), "remove": lambda: s.remove_channel(77),
                   "fs": lambda: setattr(s, "sampling_rate_hz", 44100.5), "swap": lambda: s.swap_channels([5] * nch),
                   "imag": lambda: setattr(s, "time_data_imaginary", np.zeros((n + 1, nch)))}[st["k"]]
            try:
                bad()
            except Exception as e:
                if not core.through_lib(e):
                    raise
            else:
                raise Violation("accepted", f"invalid argument accepted: {st['k']}")
            ctx.fault("rejected argument")
        if call is not None:
            before = np.array(s.time_data)
            if fault:
                cl = copy.deepcopy(s)
                _, err, fired = with_fault(ctx, fault, lambda: call(cl), lambda: call(s))
                if not fired and err is None:
                    call(s) if s.time_data.shape == before.shape and op == "none" else None
            else:
                _, err = attempt(lambda: call(s))
            if w.window is not None and (err is None or s.time_data.shape != before.shape or not np.array_equal(s.time_data, before)):
                w.window = None
        dirty, last = True, op + ("!" if fault else "")
        ctx.probe(op)
        ctx.log(op)
    # ---- after the history: every question, on every object still alive
    for k, x in enumerate([w] + others[:2]):
        for what in ("spectrum", "csm", "spectrogram", "time"):
            check(x, what, tag=f" (final, object {k})")
        ctx.sim_time += x.s.length_seconds
