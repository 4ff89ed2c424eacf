"""Table of in-place operations (edits and rejected edits) on the operands of registry.World.

fn(d, t, a, w): d = registry.D, t = object, a = JSON arguments, w = world description."""
import numpy as np
from . import core, objs, sigops as so

EDITS = {}
SIGS = ("s0", "s1", "cs", "ir0", "ir1")
MBS = ("mbs", "mbir", "mbm")
SPS = ("sp0", "spc")
FBS = ("fb", "fbm")


class Edit:
    def __init__(self, name, on, gen, fn, bad):
        self.name, self.on, self.gen, self.fn, self.bad = name, on, gen, fn, bad


def edit(name, on, gen, fn, bad=False):
    EDITS[name] = Edit(name, tuple(on), gen if callable(gen) else (lambda r: dict(gen)), fn, bad)


def S(r):
    return r.randrange(1 << 30)


def _x(t, a, n=None, nch=None, cplx=False, scale=0.5):
    return so.data(a["s"], n or t.length_samples, nch or t.number_of_channels, cplx, scale)


def _order(a, n):
    return [int(i) for i in np.random.default_rng(a["s"]).permutation(n)]


def _setter(name):
    return lambda d, t, a, w: setattr(t, name, a["v"])


# ------------------------------------------------------------------ signals
edit("td", SIGS, lambda r: dict(s=S(r), n=r.choice([None, core.loguniform(r, 40, 900)]), nch=r.choice([None, 1, 2, 3]), k=r.choice([0.5, 0.5, 1.6]), c=r.random() < 0.15),
     lambda d, t, a, w: setattr(t, "time_data", _x(t, a, a["n"], a["nch"], a["c"], a["k"])))
edit("imag", SIGS, lambda r: dict(s=S(r), none=r.random() < 0.3),
     lambda d, t, a, w: setattr(t, "time_data_imaginary", None if a["none"] else _x(t, a)))
edit("constrain", SIGS, lambda r: dict(v=r.random() < 0.6), _setter("constrain_amplitude"))
edit("fs", SIGS, lambda r: dict(v=r.choice([8000, 16000, 44100])), _setter("sampling_rate_hz"))
edit("ch_add", SIGS, lambda r: dict(s=S(r), dn=r.choice([0, 0, -3, 5]), nch=r.choice([1, 2])),
     lambda d, t, a, w: t.add_channel(None, so.data(a["s"], max(4, t.length_samples + a["dn"]), a["nch"], t.is_complex_signal), t.sampling_rate_hz))
edit("ch_remove", SIGS + SPS, lambda r: dict(i=r.choice([-1, 0, 1, 2])), lambda d, t, a, w: t.remove_channel(a["i"]))
edit("ch_swap", SIGS + SPS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.swap_channels(_order(a, t.number_of_channels)))
edit("spec", SIGS, lambda r: dict(p=so.gen_spec_params(r)), lambda d, t, a, w: t.set_spectrum_parameters(**so.params(d.E, a["p"])))
edit("kaiser", SIGS, lambda r: dict(v=r.choice([2.0, 7.0]), g=r.random() < 0.3), lambda d, t, a, w: (t.set_spectrogram_parameters if a["g"] else t.set_spectrum_parameters)(window_type=so.window(d.E, ["Kaiser", a["v"]])))
edit("gram", SIGS, lambda r: dict(p=so.gen_sgram_params(r)), lambda d, t, a, w: t.set_spectrogram_parameters(**so.params(d.E, a["p"])))
edit("method", SIGS, lambda r: dict(v=r.choice(so.METHODS)), lambda d, t, a, w: setattr(t, "spectrum_method", d.E.SpectrumMethod[a["v"]]))
edit("scaling", SIGS, lambda r: dict(v=r.choice(so.SCALINGS)), lambda d, t, a, w: setattr(t, "spectrum_scaling", d.E.SpectrumScaling[a["v"]]))
edit("smoothing", SIGS, lambda r: dict(v=r.choice([0, 1, 3])), _setter("spectrum_smoothing"))
edit("cache", SIGS, lambda r: dict(v=r.random() < 0.5), _setter("activate_cache"))
edit("calibrated", SIGS, lambda r: dict(v=r.random() < 0.5), _setter("calibrated_signal"))
edit("window", ("ir0", "ir1"), lambda r: dict(s=S(r)), lambda d, t, a, w: t.set_window(np.abs(_x(t, a)) + 0.1))
edit("unwindow", ("ir0", "ir1"), {}, lambda d, t, a, w: t.clear_time_window())
# rejected
edit("bad_td3", SIGS, {}, lambda d, t, a, w: setattr(t, "time_data", np.zeros((3, 4, 5))), True)
edit("bad_imag", SIGS, {}, lambda d, t, a, w: setattr(t, "time_data_imaginary", np.zeros((t.length_samples + 1, t.number_of_channels))), True)
edit("bad_constrain", SIGS, {}, lambda d, t, a, w: setattr(t, "constrain_amplitude", 1.5), True)
edit("bad_calibrated", SIGS, {}, lambda d, t, a, w: setattr(t, "calibrated_signal", "yes"), True)
edit("bad_fs", SIGS, {}, lambda d, t, a, w: setattr(t, "sampling_rate_hz", 44100.5), True)
edit("bad_ch_add_fs", SIGS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.add_channel(None, _x(t, a, nch=1), t.sampling_rate_hz + 1), True)
edit("bad_ch_add_len", SIGS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.add_channel(None, _x(t, a, n=t.length_samples + 3, nch=1), t.sampling_rate_hz, False), True)
edit("bad_ch_remove", SIGS + SPS, {}, lambda d, t, a, w: t.remove_channel(99), True)
edit("bad_ch_swap", SIGS + SPS, lambda r: dict(k=r.randrange(3)),
     lambda d, t, a, w: t.swap_channels([[0] * (t.number_of_channels + 1), [t.number_of_channels] * t.number_of_channels, [[0, 1], [1, 0]]][a["k"]]), True)
edit("bad_smoothing", SIGS, {}, lambda d, t, a, w: setattr(t, "spectrum_smoothing", -2), True)
edit("bad_method", SIGS, {}, lambda d, t, a, w: setattr(t, "spectrum_method", "fft"), True)
edit("bad_scaling", SIGS, {}, lambda d, t, a, w: setattr(t, "spectrum_scaling", 3), True)
edit("bad_spec", SIGS, lambda r: dict(k=r.randrange(2)),
     lambda d, t, a, w: t.set_spectrum_parameters(**[dict(smoothing=-1, window_length_samples=99), dict(method="welch", window_length_samples=99)][a["k"]]), True)
edit("bad_window", ("ir0", "ir1"), {}, lambda d, t, a, w: t.set_window(np.ones((t.length_samples + 2, t.number_of_channels))), True)


# ------------------------------------------------------------------ multiband signals
def _band(d, t, a, **kw):
    b = t.bands[0] if t.bands else None
    n = kw.get("n", b.length_samples if b is not None else 64)
    nch = kw.get("nch", b.number_of_channels if b is not None else 2)
    c = kw.get("cplx", b.is_complex_signal if b is not None else False)
    fs = kw.get("fs", b.sampling_rate_hz if b is not None else 8000)
    return d.dsp.Signal(None, so.data(a["s"], n, nch, c), fs, constrain_amplitude=False)


def _note(info, s, k):
    """Notes of every shape: a number, text, an array, nested entries, and a list that grows in place."""
    if k == 4:
        info.setdefault("log", []).append(s % 97)
    elif k == 5:
        info.setdefault("place", {}).setdefault("seat", [0, {}])[1]["row"] = (s % 7, None)
    else:
        info["note"] = [s, "take %d" % (s % 9), so.data(s, 3, 2), [s % 5, ["a", 0.5 + s % 3]]][k]


edit("band_add", MBS, lambda r: dict(s=S(r), i=r.choice([-1, 0, 1])), lambda d, t, a, w: t.add_band(_band(d, t, a), a["i"]))
edit("band_remove", MBS, lambda r: dict(i=r.choice([-1, 0, 1])), lambda d, t, a, w: t.remove_band(a["i"], return_band=True))
edit("band_swap", MBS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.swap_bands(_order(a, t.number_of_bands)))
edit("bands", MBS, lambda r: dict(s=S(r), n=r.choice([1, 2, 3]), tup=r.random() < 0.3, nch=r.choice([1, 2]), fs=r.choice([8000, 16000])),
     lambda d, t, a, w: setattr(t, "bands", (tuple if a["tup"] else list)(_band(d, t, dict(s=a["s"] + i), n=90, nch=a["nch"], fs=a["fs"], cplx=False) for i in range(a["n"]))))
edit("bands_none", MBS, {}, lambda d, t, a, w: setattr(t, "bands", None))
edit("bad_band_nch", MBS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.add_band(_band(d, t, a, nch=t.number_of_channels + 1)) if t.bands else t.remove_band(), True)
edit("bad_band_nch0", MBS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.add_band(_band(d, t, a, nch=t.number_of_channels + 1), 0) if t.bands else t.remove_band(), True)
edit("bad_band_cplx", MBS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.add_band(_band(d, t, a, cplx=not t.is_complex_signal)) if t.bands else t.remove_band(), True)
edit("note", MBS + FBS, lambda r: dict(s=S(r), k=r.randrange(6)), lambda d, t, a, w: _note(t.info, a["s"], a.get("k", 0)))
edit("bad_band_fs", ("mbs", "mbir"), lambda r: dict(s=S(r), i=r.choice([-1, 0])), lambda d, t, a, w: t.add_band(_band(d, t, a, fs=12345), a["i"]) if t.bands else t.remove_band(), True)
edit("bad_band_len", ("mbs", "mbir"), lambda r: dict(s=S(r), i=r.choice([-1, 0])), lambda d, t, a, w: t.add_band(_band(d, t, a, n=t.length_samples + 1), a["i"]) if t.bands else t.remove_band(), True)
edit("bad_band_type", MBS, {}, lambda d, t, a, w: t.add_band("no signal"), True)
edit("bad_bands_type", MBS, lambda r: dict(s=S(r)), lambda d, t, a, w: setattr(t, "bands", [_band(d, t, a, nch=3, fs=4000, cplx=False), 7]), True)
edit("bad_band_remove", MBS, {}, lambda d, t, a, w: t.remove_band(77), True)
edit("bad_band_swap", MBS, {}, lambda d, t, a, w: t.swap_bands([0] * (t.number_of_bands + 1)), True)
edit("bad_bands_mixed", ("mbs", "mbir"), lambda r: dict(s=S(r)), lambda d, t, a, w: setattr(t, "bands", [_band(d, t, a, n=80, nch=3, fs=4000, cplx=False), _band(d, t, a, n=80, nch=3, fs=5000, cplx=False)]), True)
# ------------------------------------------------------------------ filter banks
edit("filt_add", FBS, lambda r: dict(f=objs.rnd_filter_spec(r, 8000, True), i=r.choice([-1, 0, 1])),
     lambda d, t, a, w: t.add_filter(objs.filt(d.dsp, dict(a["f"], fs=_fs(t, w), f=0.1 * _fs(t, w))), a["i"]))
edit("filt_remove", FBS, lambda r: dict(i=r.choice([-1, 0, 1]), ret=r.random() < 0.5), lambda d, t, a, w: t.remove_filter(a["i"], a["ret"]))
edit("filt_swap", FBS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.swap_filters(_order(a, t.number_of_filters)))
edit("filters", FBS, lambda r: dict(s=S(r), n=r.choice([1, 2, 3]), fs=r.choice([8000, 16000]), tup=r.random() < 0.3),
     lambda d, t, a, w: setattr(t, "filters", (tuple if a["tup"] else list)(objs.filt(d.dsp, dict(k="ba", seed=a["s"] + i, fs=a["fs"], na=2, nb=2, a0=1.0)) for i in range(a["n"]))))
edit("filters_none", FBS, {}, lambda d, t, a, w: setattr(t, "filters", None))
edit("fb_zi", FBS, lambda r: dict(n=r.choice([1, 2])), lambda d, t, a, w: t.initialize_zi(a["n"]))
edit("bad_filt_fs", ("fb",), lambda r: dict(s=S(r), i=r.choice([-1, 0])), lambda d, t, a, w: t.add_filter(objs.filt(d.dsp, dict(k="ba", seed=a["s"], fs=12345, na=1, nb=1, a0=1.0)), a["i"]) if t.filters else t.remove_filter(), True)
edit("bad_filt_type", FBS, {}, lambda d, t, a, w: t.add_filter(5), True)
edit("bad_filt_dup", ("fb",), lambda r: dict(s=S(r)), lambda d, t, a, w: setattr(t, "filters", [objs.filt(d.dsp, dict(k="ba", seed=a["s"], fs=12345, na=1, nb=1, a0=1.0)), objs.filt(d.dsp, dict(k="ba", seed=a["s"], fs=12346, na=1, nb=1, a0=1.0))]), True)
edit("bad_filters_type", FBS, lambda r: dict(s=S(r)), lambda d, t, a, w: setattr(t, "filters", [objs.filt(d.dsp, dict(k="ba", seed=a["s"], fs=12345, na=1, nb=1, a0=1.0)), 7]), True)
edit("bad_filt_remove", FBS, {}, lambda d, t, a, w: t.remove_filter(77), True)
edit("bad_filt_swap", FBS, {}, lambda d, t, a, w: t.swap_filters([0] * (t.number_of_filters + 1)), True)


def _fs(t, w):
    if t.filters and t.same_sampling_rate:
        return t.sampling_rate_hz
    return w["fs"]


# ------------------------------------------------------------------ single filters
edit("f_zi", ("fi", "ff", "f2"), lambda r: dict(n=r.choice([1, 2, 3])), lambda d, t, a, w: t.initialize_zi(a["n"]))
edit("f_stream", ("fi", "ff", "f2"), lambda r: dict(s=S(r), nch=r.choice([1, 2]), n=r.choice([16, 40])),
     lambda d, t, a, w: t.filter_signal(d.dsp.Signal(None, so.data(a["s"], a["n"], a["nch"]), t.sampling_rate_hz), activate_zi=True))
edit("fb_stream", ("fb", "fb", "fbm"), lambda r: dict(s=S(r), nch=r.choice([1, 2]), n=r.choice([16, 40]), m=r.choice(["Parallel", "Sequential", "Summed"])),
     lambda d, t, a, w: t.filter_signal(d.dsp.Signal(None, so.data(a["s"], a["n"], a["nch"]), w["fs"]), d.E.FilterBankMode[a["m"]], activate_zi=True))
edit("fb_mstream", FBS, lambda r: dict(s=S(r), nch=r.choice([1, 2])),
     lambda d, t, a, w: t.filter_multiband_signal(d.dsp.MultiBandSignal([d.dsp.Signal(None, so.data(a["s"] + i, 30, a["nch"]), f.sampling_rate_hz) for i, f in enumerate(t.filters)],
                                                                        same_sampling_rate=t.same_sampling_rate), activate_zi=True))
edit("lr_zi", ("lr",), lambda r: dict(n=r.choice([1, 2])), lambda d, t, a, w: t.initialize_zi(a["n"]))
edit("lr_stream", ("lr",), lambda r: dict(s=S(r), nch=r.choice([1, 2]), n=r.choice([16, 40]), m=r.choice(["Parallel", "Summed"])),
     lambda d, t, a, w: t.filter_signal(d.dsp.Signal(None, so.data(a["s"], a["n"], a["nch"]), w["fs"]), d.E.FilterBankMode[a["m"]], activate_zi=True))
# ------------------------------------------------------------------ spectra
edit("sp_data", SPS, lambda r: dict(s=S(r), nch=r.choice([1, 2, 3]), c=r.random() < 0.4),
     lambda d, t, a, w: setattr(t, "spectral_data", np.abs(so.data(a["s"], len(t.frequency_vector_hz), a["nch"])) if not a["c"] else so.data(a["s"], len(t.frequency_vector_hz), a["nch"], True)))
edit("sp_freq", SPS, lambda r: dict(k=r.choice([1.5, 2.0])), lambda d, t, a, w: setattr(t, "frequency_vector_hz", t.frequency_vector_hz * a["k"]))
edit("sp_trim", SPS, lambda r: dict(lo=r.choice([None, 0.1]), hi=r.choice([None, 0.8]), inc=r.random() < 0.5),
     lambda d, t, a, w: t.trim(*[None if x is None else x * float(t.frequency_vector_hz[-1]) for x in (a["lo"], a["hi"])], a["inc"]))
edit("sp_resample", SPS, lambda r: dict(n=r.choice([21, 40, 90])), lambda d, t, a, w: t.resample(np.linspace(t.frequency_vector_hz[0], t.frequency_vector_hz[-1], a["n"])))
edit("sp_norm", SPS, lambda r: dict(ch=r.choice([None, 0])), lambda d, t, a, w: t.normalize(float(t.frequency_vector_hz[len(t.frequency_vector_hz) // 3]), a["ch"]))
edit("sp_gain", SPS, lambda r: dict(g=r.choice([-3.0, 6.0])), lambda d, t, a, w: t.apply_gain(a["g"]))
edit("sp_interp", SPS, lambda r: dict(dm=r.choice(["Power", "Magnitude"]), sc=r.choice(["Linear", "Cubic", "Pchip"]), e=r.choice(["ZeroPad", "Extend", "OnePad", "Error"])),
     lambda d, t, a, w: t.set_interpolator_parameters(d.E.InterpolationDomain[a["dm"]], d.E.InterpolationScheme[a["sc"]], d.E.InterpolationEdgeHandling[a["e"]]))
edit("sp_coh", SPS, lambda r: dict(s=S(r)), lambda d, t, a, w: t.set_coherence(np.abs(so.data(a["s"], len(t.frequency_vector_hz), t.number_of_channels))))
edit("sp_smooth", SPS, lambda r: dict(o=r.choice([1.0, 3.0]), w=r.choice(so.WINDOWS)), lambda d, t, a, w: t.apply_octave_smoothing(a["o"], so.window(d.E, a["w"])))
edit("sp_warp", SPS, lambda r: dict(k=round(r.uniform(-0.5, 0.5), 3)), lambda d, t, a, w: t.warp(a["k"], int(2 * t.frequency_vector_hz[-1] + 1)))
edit("bad_sp_neg", SPS, lambda r: dict(s=S(r)), lambda d, t, a, w: setattr(t, "spectral_data", -np.abs(so.data(a["s"], len(t.frequency_vector_hz), 2)) - 0.1), True)
edit("bad_sp_len", SPS, lambda r: dict(s=S(r)), lambda d, t, a, w: setattr(t, "spectral_data", np.abs(so.data(a["s"], len(t.frequency_vector_hz) + 2, 2))), True)
edit("bad_sp_freq", SPS, lambda r: dict(k=r.randrange(4)), lambda d, t, a, w: setattr(
    t, "frequency_vector_hz", [t.frequency_vector_hz[::-1], t.frequency_vector_hz - 1e5, t.frequency_vector_hz + 1j, t.frequency_vector_hz * 0][a["k"]]), True)
edit("bad_sp_flen", SPS, {}, lambda d, t, a, w: setattr(t, "frequency_vector_hz", np.linspace(1, 9, len(t.frequency_vector_hz) + 3)), True)
edit("bad_sp_gain", SPS, {}, lambda d, t, a, w: t.apply_gain(np.zeros(t.number_of_channels + 2)), True)
edit("bad_sp_norm", SPS, {}, lambda d, t, a, w: t.normalize(float(t.frequency_vector_hz[3]), 55), True)
edit("bad_sp_coh", SPS, {}, lambda d, t, a, w: t.set_coherence(np.ones((3, t.number_of_channels))), True)
edit("bad_sp_resample", SPS, {}, lambda d, t, a, w: t.resample(np.array([3.0, 2.0, 1.0])), True)
edit("bad_sp_trim", SPS, {}, lambda d, t, a, w: t.trim(500.0, 100.0), True)


def gen_edit(r, on=None, bad=None, only=None):
    names = [n for n in sorted(EDITS) if (bad is None or EDITS[n].bad == bad) and (on is None or on in EDITS[n].on) and (only is None or n in only)]
    e = EDITS[r.choice(names)]
    return dict(edit=e.name, t=on or r.choice(e.on), a=e.gen(r))


def apply(d, t, st, w):
    """Returns (result, exception); errors of the harness propagate."""
    try:
        return EDITS[st["edit"]].fn(d, t, st["a"], w), None
    except Exception as e:
        if not core.through_lib(e):
            raise
        return None, e
