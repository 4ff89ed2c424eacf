"""Table of public operations that return a result: how to generate arguments and call them.

Each entry: name -> Op(uses(r) -> operand names, gen(r, w) -> JSON arguments, fn(d, o, a) -> result, flags).
Flags: plot (draws), rng (uses the global numpy generator), heavy."""
import numpy as np
from . import core, objs, sigops as so

OPS = {}
PROBLEMS = []     # objects of the caller that an operation of the table found changed afterwards


class Op:
    def __init__(self, name, uses, gen, fn, flags):
        self.name, self.uses, self.gen, self.fn, self.flags = name, uses, gen, fn, set(flags)


class D:
    """Namespace passed to op functions."""

    def __init__(self, dsp, guarded=False):
        from dsptoolbox.standard import enums as E
        self.E = E
        if guarded:
            from . import guard
            dsp = guard.module(dsp, PROBLEMS)
        self.dsp = dsp
        self.tf, self.tr, self.di, self.ra, self.fb = dsp.transfer_functions, dsp.transforms, dsp.distances, dsp.room_acoustics, dsp.filterbanks
        self.st, self.ge, self.fx, self.bf, self.to = dsp.standard, dsp.generators, dsp.effects, dsp.beamforming, dsp.tools


def op(name, uses, gen, fn, *flags):
    u = (lambda r, uses=uses: [r.choice(x.split("|")) for x in uses.split()]) if isinstance(uses, str) else uses
    g = gen if callable(gen) else (lambda r, w: dict(gen))
    OPS[name] = Op(name, u, g, fn, flags)


# ------------------------------------------------------------------ the world
def gen_world(r):
    return dict(fs=r.choice([8000, 16000, 48000]), n=core.loguniform(r, 220, 900), nch=r.choice([1, 2, 2, 3]), seed=r.randrange(1 << 40),
                cache=r.random() < 0.4, method=r.choice(so.METHODS), scaling=r.choice(so.SCALINGS), win=r.choice([32, 64, 128]),
                constrain=r.random() < 0.2, smoothing=r.choice([0, 0, 0, 3]), window=r.random() < 0.3, coh=r.random() < 0.4)


NAMES = ["s0", "s1", "m0", "cs", "ir0", "ir1", "rir", "mbs", "mbir", "sp0", "sp1", "spc", "fi", "ff", "f2", "fb", "lr", "gt", "rx", "array8",
         "fvec", "cv", "frq", "lu", "t0", "tir"]


class World:
    def __init__(self, dsp, w):
        self.dsp, self.w, self.o = dsp, w, {}

    def __getitem__(self, k):
        if k not in self.o:
            self.o[k] = self._make(k)
        return self.o[k]

    def _sig(self, k, cls="Signal", nch=None, decay=False, cplx=False):
        w, dsp = self.w, self.dsp
        sd = core.derive(w["seed"], k) % (1 << 40)
        n = w["n"] * (3 if k in ("rir", "mbir") else 1)
        x = so.data(sd, n, nch or w["nch"], cplx)
        if decay:
            t = np.arange(n)[:, None]
            x = x * 10 ** (-3 * t / n)
            x[:6] *= 0.01
            x[6] = 0.93
        C = getattr(dsp, cls)
        s = C(None, x, w["fs"], constrain_amplitude=w["constrain"], activate_cache=w["cache"])
        E = so.enums(dsp)
        if cls == "Signal":
            s.set_spectrum_parameters(method=E.SpectrumMethod[w["method"]], window_length_samples=w["win"], scaling=E.SpectrumScaling[w["scaling"]],
                                      smoothing=w["smoothing"])
        else:
            s.set_spectrum_parameters(method=E.SpectrumMethod[w["method"] if k == "ir1" else "FFT"], window_length_samples=w["win"], smoothing=w["smoothing"])
            if w["window"]:
                s.set_window(np.ones_like(s.time_data) * 0.8)
        s.set_spectrogram_parameters(window_length_samples=w["win"])
        return s

    def _make(self, k):
        w, dsp = self.w, self.dsp
        sd = core.derive(w["seed"], k) % (1 << 40)
        g = np.random.default_rng(sd)
        fs = w["fs"]
        if k in ("s0", "s1"):
            return self._sig(k)
        if k == "m0":
            return self._sig(k, nch=1)
        if k in ("t0", "tir"):      # another length, rate and channel count than the rest
            g = np.random.default_rng(sd)
            n = w["n"] // 2 + 61
            x = so.data(sd, n, 1 + sd % 2)
            if k == "tir":
                x = x * 10 ** (-3 * np.arange(n)[:, None] / n)
                x[:9] *= 0.01
                x[9] = 0.9
            s = (dsp.Signal if k == "t0" else dsp.ImpulseResponse)(None, x, 12000 if g.random() < 0.4 else fs, constrain_amplitude=w["constrain"])
            s.set_spectrum_parameters(window_length_samples=w["win"] // 2)
            s.set_spectrogram_parameters(window_length_samples=w["win"] // 2)
            return s
        if k == "cs":
            return self._sig(k, cplx=True)
        if k == "array8":
            return self._sig(k, nch=5)
        if k == "lu":
            return dsp.Signal(None, so.data(sd, int(0.55 * fs), 1 + w["seed"] % 2), fs, constrain_amplitude=w["constrain"])
        if k in ("ir0", "ir1"):
            return self._sig(k, "ImpulseResponse", decay=True)
        if k == "rir":
            return self._sig(k, "ImpulseResponse", decay=True)
        if k == "mbs":
            return dsp.MultiBandSignal([self._sig("mbs%d" % i) for i in range(3)], same_sampling_rate=True)
        if k == "mbm":
            return dsp.MultiBandSignal([dsp.Signal(None, so.data(sd + i, w["n"] // (i + 1), w["nch"]), fs // (i + 1)) for i in range(3)],
                                       same_sampling_rate=False)
        if k == "fbm":
            return dsp.FilterBank([objs.filt(dsp, dict(k="ba", seed=sd + i, fs=fs // (i + 1), na=2, nb=1 + i, a0=1.0)) for i in range(3)],
                                  same_sampling_rate=False)
        if k == "mbir":
            return dsp.MultiBandSignal([self._sig("mbir", "ImpulseResponse", decay=True) for i in range(2)], same_sampling_rate=True)
        if k in ("sp0", "sp1", "spc"):
            nb = 65 if w["n"] <= 15000 else w["n"] // 8
            f = np.linspace(0, fs / 2, nb)
            x = g.uniform(0.2, 1.0, (nb, w["nch"]))
            if k == "spc":
                x = x * np.exp(1j * g.uniform(-2, 2, x.shape))
            s = dsp.Spectrum(f, x)
            if w["coh"]:
                s.set_coherence(g.uniform(0.1, 1.0, x.shape))
            return s
        if k == "fi":
            return objs.filt(dsp, dict(k="iir", seed=sd, fs=fs, order=4, f=round(0.1 * fs, 1), p="Lowpass", d="Butterworth"))
        if k == "ff":
            return objs.filt(dsp, dict(k="fir", seed=sd, fs=fs, order=16))
        if k == "f2":
            return objs.filt(dsp, dict(k="ba", seed=sd, fs=fs, na=2, nb=2, a0=1.0))
        if k == "fb":
            return dsp.FilterBank([objs.filt(dsp, dict(k="biquad", seed=sd, fs=fs, f=0.05 * fs, g=3.0, q=0.8, e="Peaking")),
                                   objs.filt(dsp, dict(k="iir", seed=sd, fs=fs, order=2, f=round(0.2 * fs, 1), p="Highpass", d="Butterworth")),
                                   objs.filt(dsp, dict(k="iir", seed=sd, fs=fs, order=3, f=round(0.3 * fs, 1), p="Lowpass", d="Butterworth"))])
        if k == "lr":
            return dsp.filterbanks.linkwitz_riley_crossovers([0.05 * fs, 0.2 * fs], [2, 4], fs)
        if k == "gt":
            return dsp.filterbanks.auditory_filters_gammatone([0.02 * fs, 0.2 * fs], 2, fs)
        if k == "biq":
            return objs.filt(dsp, dict(k="biquad", seed=sd, fs=fs, f=0.1 * fs, g=3.0, q=0.8, e="Peaking"))
        if k == "qmf":
            return dsp.filterbanks.qmf_crossover(dsp.Filter.fir_filter(21, 0.25 * fs, dsp.FilterPassType.Lowpass, fs))
        if k == "fbff":
            return dsp.FilterBank([objs.filt(dsp, dict(k="fir", seed=sd + i, fs=fs, order=8 + i)) for i in range(2)])
        if k == "mbc":
            return dsp.MultiBandSignal([self._sig("mbc%d" % i, cplx=True) for i in range(2)], same_sampling_rate=True)
        if k == "rx":
            return dsp.room_acoustics.ShoeboxRoom([4.0, 3.0, 2.6], t60_s=0.25)
        if k == "fvec":
            return np.linspace(0.01 * fs, 0.45 * fs, 21)
        if k == "cv":
            return g.uniform(0.1, 1.0, (65, w["nch"]))
        if k == "rngd":     # a range given as an array, upper end first
            return np.array([0.4 * fs, 0.02 * fs])
        if k == "ist":      # starts of impulse responses given as an integer array
            return g.integers(0, 12, w["nch"])
        if k == "wv":
            return dsp.transforms.MorletWavelet(h=3.0, step=0.01)
        if k == "irf":      # one second long, so that one bin is one hertz
            x = so.data(sd, fs, 1) * 10 ** (-3 * np.arange(fs)[:, None] / fs)
            s = dsp.ImpulseResponse(None, x, fs)
            s.set_spectrum_parameters(method=so.enums(dsp).SpectrumMethod.WelchPeriodogram, window_length_samples=w["win"])
            return s
        if k == "frq":
            return np.array([0.03 * fs, 0.3 * fs])
        raise KeyError(k)


def mode(r):
    return r.choice(["Parallel", "Sequential", "Summed"])


SMOOTH = ["RealImaginary", "PowerPhase", "MagnitudePhase", "Power", "Magnitude", "EquivalentComplex"]
SIG = "s0|s1|m0|ir0"
ANY = "s0|m0|cs|ir0|mbs"
F = lambda r, a, b: round(r.uniform(a, b), 4)  # noqa

# ---- signal queries
op("spectrum", SIG + "|ir1", {}, lambda d, o, a: o[0].get_spectrum())
op("spectrum_force", SIG + "|ir1", {}, lambda d, o, a: o[0].get_spectrum(True))
op("csm", "s0|s1|ir1", {}, lambda d, o, a: o[0].get_csm())
op("spectrogram", SIG, {}, lambda d, o, a: o[0].get_spectrogram())
op("time_vector", SIG, {}, lambda d, o, a: o[0].time_vector_s)
op("meta", "s0|ir0|mbs|fi|ff|fb", {}, lambda d, o, a: (o[0].metadata, o[0].metadata_str))
op("s.get_channels", SIG + "|cs", {}, lambda d, o, a: o[0].get_channels(0))
op("s.sum_channels", SIG + "|cs", {}, lambda d, o, a: o[0].sum_channels())
op("s.iter", SIG, {}, lambda d, o, a: [x.copy() for x in o[0]])
op("copy", "s0|ir0|cs|mbs|sp0|fi|fb|lr", {}, lambda d, o, a: o[0].copy())
op("ir.from_signal", "s0|cs", {}, lambda d, o, a: d.dsp.ImpulseResponse.from_signal(o[0]))
op("copy_with_new_td", "s0|ir0 s1", {}, lambda d, o, a: o[0].copy_with_new_time_data(o[1].time_data))
for _p in ("mag", "phase", "gd", "spl", "sgram", "csm", "time"):
    op("plot_" + _p, "s0|ir0|ir1", lambda r, w, p=_p: dict(_plot(r, p)), lambda d, o, a: so.plot(o[0], a, d.E), "plot")
op("plot_bode", "ir0|ir1", lambda r, w: dict(_plot(r, "bode")), lambda d, o, a: so.plot(o[0], a, d.E), "plot")


def _plot(r, p):
    while True:
        x = so.gen_plot(r, True)
        if x["p"] == p:
            return x


# ---- multiband
op("mbs.get_all_bands", "mbs", {}, lambda d, o, a: o[0].get_all_bands(0))
op("mbs.get_all_td", "mbs", {}, lambda d, o, a: o[0].get_all_time_data())
op("mbs.collapse", "mbs|mbir", {}, lambda d, o, a: o[0].collapse())
# ---- filters
op("f.ir", "fi|ff|f2", lambda r, w: dict(n=r.choice([16, 50, 128])), lambda d, o, a: o[0].get_ir(a["n"]))
op("f.tf", "fi|ff|f2 fvec", {}, lambda d, o, a: o[0].get_transfer_function(o[1]))
op("f.gd", "fi|ff|f2 fvec", {}, lambda d, o, a: o[0].get_group_delay(o[1]))
op("f.coeff", "fi|ff|f2", lambda r, w: dict(m=r.choice(["Zpk", "Sos", "Ba"])), lambda d, o, a: o[0].get_coefficients(d.E.FilterCoefficientsType[a["m"]]))
op("f.filter", "fi|ff|f2 s0|ir0|cs", lambda r, w: dict(z=r.random() < 0.3, ch=r.choice([None, None, [0]])), lambda d, o, a: o[0].filter_signal(o[1], channels=a["ch"], zero_phase=a["z"]))
op("f.filter_resample", "fi|ff|f2 s0", lambda r, w: dict(k=r.choice([2, 4])), lambda d, o, a: o[0].filter_and_resample_signal(o[1], o[1].sampling_rate_hz // a["k"]))
op("f.resample", "fi|ff", lambda r, w: dict(k=r.choice([1, 2])), lambda d, o, a: d.st.resample_filter(o[0], o[0].sampling_rate_hz * 2 // a["k"]))
op("f.warp", "fi|ff", lambda r, w: dict(k=F(r, -0.6, 0.6)), lambda d, o, a: d.tr.warp_filter(o[0], a["k"]))
op("f.merge", "fi f2|ff", {}, lambda d, o, a: d.st.merge_filters([o[0], o[1]]))
op("fb.merge", "fb", {}, lambda d, o, a: d.st.merge_filters(o[0]))
op("f.complementary", "ff", {}, lambda d, o, a: d.fb.complementary_fir_filter(o[0]))
op("f.to_ir", "ff", {}, lambda d, o, a: d.tf.filter_to_ir(o[0]))
for _p in ("mag", "phase", "gd"):
    op("f.plot_" + _p, "fi|ff", {}, lambda d, o, a, p=_p: _fplot(d, o[0], p), "plot")
    op("fb.plot_" + _p, "fb", lambda r, w: dict(m=mode(r)), lambda d, o, a, p=_p: _fbplot(d, o[0], p, a["m"]), "plot")
op("f.plot_zp", "fi|ff", {}, lambda d, o, a: _fplot(d, o[0], "zp"), "plot")
op("f.plot_taps", "ff", {}, lambda d, o, a: _fplot(d, o[0], "taps"), "plot")


def _closing(fn):
    import matplotlib.pyplot as plt
    try:
        r = fn()
        return so.plotted(r[0]) if r is not None else None
    finally:
        plt.close("all")


def _fplot(d, f, p):
    return _closing({"mag": lambda: f.plot_magnitude(256), "phase": lambda: f.plot_phase(256), "gd": lambda: f.plot_group_delay(256),
                     "zp": lambda: f.plot_zp(), "taps": lambda: f.plot_taps()}[p])


def _fbplot(d, f, p, m):
    m = d.E.FilterBankMode[m]
    return _closing({"mag": lambda: f.plot_magnitude(256, m), "phase": lambda: f.plot_phase(256, m), "gd": lambda: f.plot_group_delay(256, m)}[p])


# ---- filter banks
op("fb.filter", "fb|lr|gt s0|m0|ir0", lambda r, w: dict(m=mode(r), z=r.random() < 0.3),
   lambda d, o, a: o[0].filter_signal(o[1], d.E.FilterBankMode[a["m"]], zero_phase=a["z"]))
op("fb.filter_mbs", "fb mbs", {}, lambda d, o, a: o[0].filter_multiband_signal(o[1]))
op("fb.ir", "fb|lr|gt", lambda r, w: dict(m=mode(r), n=r.choice([32, 100])), lambda d, o, a: o[0].get_ir(a["n"], d.E.FilterBankMode[a["m"]]))
op("fb.tf", "fb fvec", lambda r, w: dict(m=mode(r)), lambda d, o, a: o[0].get_transfer_function(o[1], d.E.FilterBankMode[a["m"]]))
op("gt.reconstruct", "gt s0", {}, lambda d, o, a: o[0].reconstruct(o[0].filter_signal(o[1], d.E.FilterBankMode.Parallel)))
op("append_filterbanks", "fb fb", {}, lambda d, o, a: d.st.append_filterbanks([o[0], o[1]]))
# ---- spectrum
op("sp.get_energy", "sp0|spc", {}, lambda d, o, a: o[0].get_energy(None, 2000.0))
op("sp.interp", "sp0|spc fvec", lambda r, w: dict(t=r.choice(["Power", "Magnitude", "Complex", "Db"])), lambda d, o, a: o[0].get_interpolated_spectrum(o[1], d.E.SpectrumType[a["t"]]))
op("sp.get_channels", "sp0|spc", {}, lambda d, o, a: o[0].get_channels([0]))
op("sp.sum", "sp0|spc", lambda r, w: dict(p=r.random() < 0.5), lambda d, o, a: o[0].sum_channels(a["p"]))
op("sp.to_signal", "spc", {}, lambda d, o, a: o[0].to_signal(16000, 0.02))
op("sp.from_signal", "s0|ir0", lambda r, w: dict(c=r.random() < 0.4), lambda d, o, a: d.dsp.Spectrum.from_signal(o[0], a["c"]))
op("sp.from_filter", "fvec fi|ff", lambda r, w: dict(c=r.random() < 0.5), lambda d, o, a: d.dsp.Spectrum.from_filter(o[0], o[1], a["c"]))
op("sp.from_fb", "fvec fb", lambda r, w: dict(m=mode(r)), lambda d, o, a: d.dsp.Spectrum.from_filterbank(o[0], o[1], d.E.FilterBankMode[a["m"]]))
op("sp.plot", "sp0|spc", {}, lambda d, o, a: _closing(lambda: o[0].plot_magnitude()), "plot")
op("append_spectra", "sp0 sp1|spc", {}, lambda d, o, a: d.st.append_spectra([o[0], o[1]]))
op("spectral_difference", "s0|sp0 s1|sp1", lambda r, w: dict(s=r.choice([0.0, 3.0]), e=r.random() < 0.5), lambda d, o, a: d.st.spectral_difference(o[0], o[1], a["s"], a["e"]))
# ---- standard
op("latency", lambda r: r.choice([["s0", "s1"], ["mbs", "mbs"], ["ir0", "ir1"]]), lambda r, w: dict(p=r.choice([0, 1])), lambda d, o, a: d.st.latency(o[0], o[1], a["p"]))
op("latency1", "s0", lambda r, w: dict(p=r.choice([0, 1])), lambda d, o, a: d.st.latency(o[0], None, a["p"]))
op("append_signals", "s0 s1|m0", lambda r, w: dict(e=r.random() < 0.5), lambda d, o, a: d.st.append_signals([o[0], o[1]], True, a["e"]))
op("append_mbs", "mbs mbs", {}, lambda d, o, a: d.st.append_signals([o[0], o[1]]))
op("pad_trim", ANY, lambda r, w: dict(n=r.choice([64, w["n"], w["n"] + 31]), e=r.random() < 0.5), lambda d, o, a: d.st.pad_trim(o[0], a["n"], a["e"]))
op("modify_length", "s0|ir0|mbs", lambda r, w: dict(s=r.choice([None, 0.0, -0.002, 0.003]), e=r.choice([None, 0.0, 0.004, -0.003])), lambda d, o, a: d.st.modify_signal_length(o[0], a["s"], a["e"]))
op("trim_time", "s0|ir0|mbs", lambda r, w: dict(s=r.choice([None, 0.0, 0.002]), e=r.choice([None, 0.012])), lambda d, o, a: d.st.trim_with_time_selection(o[0], a["s"], a["e"]))
op("trim_level", "s0|ir0", lambda r, w: dict(t=r.choice([-20, -6.0])), lambda d, o, a: d.st.trim_with_level_threshold(o[0], a["t"]))
op("normalize", ANY, lambda r, w: dict(l=r.choice([-6.0, -20]), p=r.random() < 0.5, e=r.random() < 0.5), lambda d, o, a: d.st.normalize(o[0], a["l"], a["p"], a["e"]))
op("fade", "s0|ir0", lambda r, w: dict(t=r.choice(["Linear", "Exponential", "Logarithmic"]), s=r.choice([None, 0.003])), lambda d, o, a: d.st.fade(o[0], d.E.FadeType[a["t"]], a["s"]))
op("frac_delay", "s0|ir0|mbs", lambda r, w: dict(t=r.choice([0.0, 0.00037, 0.004, 0.0005]), k=r.random() < 0.5, c=r.choice([None, 0])), lambda d, o, a: d.st.fractional_delay(o[0], a["t"], a["c"], a["k"]))
op("delay", "s0|ir0|mbs|cs", lambda r, w: dict(n=r.choice([0, 1, 33]), k=r.random() < 0.5, c=r.choice([None, 0])), lambda d, o, a: d.st.delay(o[0], a["n"], a["c"], a["k"]))
op("activity", "s0|m0", lambda r, w: dict(t=r.choice([-20, -3])), lambda d, o, a: d.st.activity_detector(o[0], a["t"]))
op("activity_f", "s0 fi", {}, lambda d, o, a: d.st.activity_detector(o[0], -20, pre_filter=o[1]))
op("detrend", "s0|ir0|mbs", lambda r, w: dict(p=r.choice([0, 1, 2])), lambda d, o, a: d.st.detrend(o[0], a["p"]))
op("rms", "s0|ir0|mbs", {}, lambda d, o, a: d.st.rms(o[0]))
op("crest", "s0|ir0|mbs", lambda r, w: dict(t=r.random() < 0.5), lambda d, o, a: d.st.crest_factor(o[0], True, a["t"]))
op("true_peak", "s0|ir0|mbs", {}, lambda d, o, a: d.st.true_peak_level(o[0]))
op("lufs", "lu|lu|s0|ir0", {}, lambda d, o, a: d.st.lufs_integrated(o[0]))
op("envelope", "s0|mbs|ir0", lambda r, w: dict(a=r.random() < 0.5), lambda d, o, a: d.st.envelope(o[0], a["a"], None if a["a"] else 31))
op("apply_gain", "s0|ir0|mbs|fi|ff|fb", lambda r, w: dict(g=r.choice([-6.0, 3.0])), lambda d, o, a: d.st.apply_gain(o[0], a["g"]))
op("resample", "s0|ir0", lambda r, w: dict(f=r.choice([8000, 16000, 11025])), lambda d, o, a: d.st.resample(o[0], a["f"]))
op("dither", "s0", lambda r, w: dict(t=r.random() < 0.5, x=r.random() < 0.5), lambda d, o, a: d.st.dither(o[0], a["t"], truncate=a["x"]), "rng")
# ---- transforms
op("cepstrum", "s0|m0", lambda r, w: dict(c=r.random() < 0.5), lambda d, o, a: d.tr.cepstrum(o[0], a["c"]))
op("log_mel", "s0", lambda r, w: dict(p=_st(r)), lambda d, o, a: d.tr.log_mel_spectrogram(o[0], n_bands=8, generate_plot=False, stft_parameters=_sp(d, a["p"])))
op("mfcc", "s0", lambda r, w: dict(p=_st(r)), lambda d, o, a: d.tr.mfcc(o[0], generate_plot=False, stft_parameters=_sp(d, a["p"])))
op("waterfall", "s0", lambda r, w: dict(p=_st(r)), lambda d, o, a: _closing(lambda: d.tr.plot_waterfall(o[0], stft_parameters=_sp(d, a["p"]))), "plot")
op("istft", "s0", {}, lambda d, o, a: d.tr.istft(o[0].get_spectrogram()[2], o[0]))
op("chroma", "m0|s0", {}, lambda d, o, a: d.tr.chroma_stft(o[0]))
op("cwt", "m0 frq", lambda r, w: dict(s=r.random() < 0.3), lambda d, o, a: d.tr.cwt(o[0], o[1], d.tr.MorletWavelet(h=3.0, step=0.01), synchrosqueezed=a["s"]))
op("hilbert", "s0|mbs|ir0", {}, lambda d, o, a: d.tr.hilbert(o[0]))
op("vqt", "m0", {}, lambda d, o, a: d.tr.vqt(o[0], octaves=[3, 4], bins_per_octave=6), "heavy")
op("mid_side", "s0|s1", lambda r, w: dict(f=r.random() < 0.5), lambda d, o, a: d.tr.stereo_mid_side(o[0], a["f"]))
op("laguerre", "m0|ir0", lambda r, w: dict(k=F(r, -0.5, 0.5)), lambda d, o, a: d.tr.laguerre(o[0], a["k"]), "heavy")
op("warp", "ir0", lambda r, w: dict(k=F(r, -0.5, 0.5), s=r.random() < 0.5), lambda d, o, a: d.tr.warp(o[0], a["k"], a["s"], 128), "heavy")
op("lpc", "m0|s0", lambda r, w: dict(b=r.random() < 0.5, s=r.random() < 0.3), lambda d, o, a: d.tr.lpc(o[0], 4, 64, a["s"], a["b"]), "rng")
op("dft", "s0 fvec", {}, lambda d, o, a: d.tr.dft(o[0], o[1]))
op("mel_fb", "fvec", {}, lambda d, o, a: d.tr.mel_filterbank(np.linspace(0, 4000, 33), n_bands=6))
op("spectrum_fb", "m0 fvec", lambda r, w: dict(z=r.random() < 0.5), lambda d, o, a: d.tr.spectrum_via_filterbank(o[0], o[1][3:9], bandwidth_octaves=0.5, order=4, zero_phase=a["z"]))


def _st(r):
    return r.choice([None, dict(window_length_samples=r.choice([64, 128, 256]), overlap_percent=r.choice([25.0, 50.0]))])


def _sp(d, p):
    return None if p is None else so.params(d.E, p)


# ---- transfer functions
op("deconvolve", "s0|ir0 s1|m0", lambda r, w: dict(p=r.random() < 0.5, k=r.random() < 0.5, g=r.random() < 0.5), lambda d, o, a: d.tf.spectral_deconvolve(o[0], o[1], a["g"], None if a["g"] else None, padding=a["p"], keep_original_length=a["k"]))
op("window_ir", "ir0|rir", lambda r, w: dict(n=r.choice([64, 128, 200]), ad=r.random() < 0.5, s=r.random() < 0.5), lambda d, o, a: d.tf.window_ir(o[0], a["n"], a["ad"], at_start=a["s"]))
op("window_tukey", "ir0", {}, lambda d, o, a: d.tf.window_ir_tukey(o[0], 0.001, 0.004))
op("window_centered", "ir0", lambda r, w: dict(n=r.choice([63, 100])), lambda d, o, a: d.tf.window_centered_ir(o[0], a["n"]))
op("transfer_function", "s0 s1|m0", lambda r, w: dict(m=r.choice(["H1", "H2", "H3"])), lambda d, o, a: d.tf.compute_transfer_function(o[0], o[1], 64, d.tf.TransferFunctionType[a["m"]]))
op("average_irs", "ir0", lambda r, w: dict(t=r.random() < 0.5, e=r.random() < 0.5), lambda d, o, a: d.tf.average_irs(o[0], a["t"], a["e"]))
op("min_phase_from_mag", "sp0", {}, lambda d, o, a: d.tf.min_phase_from_mag(o[0], int(o[0].frequency_vector_hz[-1] * 2)))
op("lin_phase_from_mag", "sp0", {}, lambda d, o, a: d.tf.lin_phase_from_mag(o[0], int(o[0].frequency_vector_hz[-1] * 2), group_delay_ms=5.0, check_causality=False))
op("min_phase_ir", "ir0", lambda r, w: dict(r=r.random() < 0.5), lambda d, o, a: d.tf.min_phase_ir(o[0], a["r"]))
op("group_delay", "s0|ir0|ir1", lambda r, w: dict(an=r.random() < 0.5, s=r.choice([0, 3]), l=False), lambda d, o, a: d.tf.group_delay(o[0], a["an"], a["s"]))
op("group_delay_lat", "ir0|ir1", lambda r, w: dict(an=r.random() < 0.5), lambda d, o, a: d.tf.group_delay(o[0], a["an"], 0, True))
op("minimum_phase", "ir0|ir1", lambda r, w: dict(r=r.random() < 0.5), lambda d, o, a: d.tf.minimum_phase(o[0], a["r"]))
op("minimum_gd", "ir0|ir1", {}, lambda d, o, a: d.tf.minimum_group_delay(o[0]))
op("excess_gd", "ir0|ir1", lambda r, w: dict(an=r.random() < 0.5, l=r.random() < 0.5), lambda d, o, a: d.tf.excess_group_delay(o[0], 0, a["l"], a["an"]))
op("combine_dirac", "ir0", lambda r, w: dict(l=r.random() < 0.5, n=r.choice([None, "energy", "peak"])), lambda d, o, a: d.tf.combine_ir_with_dirac(o[0], 1000.0, a["l"], 4, a["n"]))
op("ir_to_filter", "ir0", lambda r, w: dict(c=r.choice([0, None]), p=r.choice(["direct", "min", "lin"])), lambda d, o, a: d.tf.ir_to_filter(o[0], a["c"], a["p"]))
op("window_fdw", "ir0", {}, lambda d, o, a: d.tf.window_frequency_dependent(o[0], 5), "heavy")
op("find_ir_latency", "ir0", lambda r, w: dict(c=r.random() < 0.5), lambda d, o, a: d.tf.find_ir_latency(o[0], a["c"]))
op("harmonics", "rir", {}, lambda d, o, a: d.tf.harmonics_from_chirp_ir(o[0].get_channels(0), [20, 3000.0], 0.2, 3))
op("harmonic_dist", "rir", lambda r, w: dict(s=r.choice([0, 3]), p=r.random() < 0.2), lambda d, o, a: _hd(d, o[0], a))
op("harmonic_dist_list", "ir0 ir0 ir0", lambda r, w: dict(s=r.choice([0, 3])), lambda d, o, a: _hdl(d, o, a))
op("trim_ir", "ir0|rir", lambda r, w: dict(c=r.choice([None, 0])), lambda d, o, a: d.tf.trim_ir(o[0], a["c"]))
op("complex_smoothing", "ir0", lambda r, w: dict(m=r.choice(SMOOTH)),
   lambda d, o, a: d.tf.complex_smoothing(o[0], 3.0, getattr(d.tf.SmoothingDomain, a["m"])))


def _hd(d, ir, a):
    x = ir if ir.number_of_channels == 1 else ir.get_channels(0)
    r = _noplot(lambda: d.tf.harmonic_distortion_analysis(x, [20, 3000.0], 0.2, 3, a["s"], a["p"]))
    return {k: v for k, v in r.items() if k != "plot"}


def _hdl(d, o, a):
    # the caller's list itself is an operand: report what is left of it
    xs = [x if x.number_of_channels == 1 else x.get_channels(0) for x in o]
    lst = list(xs)
    r = _noplot(lambda: d.tf.harmonic_distortion_analysis(lst, smoothing=a["s"], generate_plot=False))
    return {k: v for k, v in r.items() if k != "plot"}, len(lst)


def _noplot(fn):
    import matplotlib.pyplot as plt
    try:
        return fn()
    finally:
        plt.close("all")


# ---- room acoustics
op("reverb_time", "rir|mbir", lambda r, w: dict(m=r.choice(["Adaptive", "T20", "T30", "EDT"]), t=r.random() < 0.5), lambda d, o, a: d.ra.reverb_time(o[0], d.ra.ReverbTime[a["m"]], automatic_trimming=a["t"]))
op("descriptors", "rir|mbir", lambda r, w: dict(m=r.choice(["D50", "C80", "CenterTime", "BassRatio"]), t=r.random() < 0.5), lambda d, o, a: d.ra.descriptors(o[0], d.ra.RoomAcousticsDescriptor[a["m"]], a["t"]))
op("find_modes", "ir0|ir1|rir", lambda r, w: dict(a=r.random() < 0.3), lambda d, o, a: d.ra.find_modes(o[0], [100, 2000], 50.0, antiresonances=a["a"]))
op("find_ir_start", "ir0|rir", {}, lambda d, o, a: d.ra.find_ir_start(o[0]))
op("convolve_rir", "s0|m0 ir0", lambda r, w: dict(p=r.random() < 0.5, l=r.random() < 0.5), lambda d, o, a: d.ra.convolve_rir_on_signal(o[0], o[1].get_channels(0), a["p"], a["l"]))
op("synthetic_rir", "rx", lambda r, w: dict(n=r.random() < 0.3, b=r.random() < 0.3), lambda d, o, a: d.ra.generate_synthetic_rir(o[0], [1.0, 1.2, 1.3], [2.5, 1.1, 1.5], 8000, 0.05, a["n"], a["b"], max_order=3), "rng")
op("room_modes", "rx", {}, lambda d, o, a: o[0].get_room_modes(3))
op("room_misc", "rx", {}, lambda d, o, a: (o[0].modal_density(200.0), o[0].check_if_in_room([1, 1, 1])))
op("room_tf", "rx fvec", {}, lambda d, o, a: o[0].get_analytical_transfer_function([1.0, 1.2, 1.3], [2.5, 1.1, 1.5], o[1][:5], 3, False))
# ---- distances
op("log_spectral", "s0 s1", lambda r, w: dict(m=r.choice(so.METHODS), p=r.choice([None, dict(window_length_samples=32)])), lambda d, o, a: d.di.log_spectral(o[0], o[1], d.E.SpectrumMethod[a["m"]], [50, 3000], spectrum_parameters=a["p"]))
op("itakura", "s0 s1", lambda r, w: dict(m=r.choice(so.METHODS), p=r.choice([None, dict(window_length_samples=32)])), lambda d, o, a: d.di.itakura_saito(o[0], o[1], d.E.SpectrumMethod[a["m"]], [50, 3000], spectrum_parameters=a["p"]))
op("snr", "s0 s1", {}, lambda d, o, a: d.di.snr(o[0], o[1]))
op("si_sdr", "s0 s1", {}, lambda d, o, a: d.di.si_sdr(o[0], o[1]))
op("fw_snr_seg", "s0 s1", lambda r, w: dict(f=r.choice([[50, 3000], [3000, 50]])), lambda d, o, a: _fw(d, o, a), "heavy")


def _fw(d, o, a):
    f, s = np.array(a["f"], float), np.array([-10.0, 35.0])
    return d.di.fw_snr_seg(o[0], o[1], f, s), f, s


# ---- filterbanks
op("arma", "ir0", lambda r, w: dict(m=r.choice(["yw", "burg"])), lambda d, o, a: d.fb.arma(o[0].get_channels(0), 4, 2, "yule-walker" if a["m"] == "yw" else "burg"))
op("qmf", "ff s0", {}, lambda d, o, a: d.fb.qmf_crossover(o[0]).filter_signal(o[1], d.E.FilterBankMode.Parallel))
op("kautz", "ir0", {}, lambda d, o, a: d.fb.KautzFilter.from_ir(o[0].get_channels(0), 4, 2).get_ir(64), "heavy")
op("parallel", "ir0 s0", {}, lambda d, o, a: d.fb.ParallelFilter(np.array([0.5 + 0.3j, 0.2 + 0.5j]), 2, o[1].sampling_rate_hz).fit_to_ir(o[0].get_channels(0)).filter_signal(o[1]), "heavy")
op("gaussian_kernel", "fvec", {}, lambda d, o, a: d.fb.gaussian_kernel(0.01, sampling_rate_hz=8000))
op("pinking", "fvec", {}, lambda d, o, a: d.fb.pinking_filter(1000.0, 48000))
op("weighting", "fvec", lambda r, w: dict(a=r.random() < 0.5), lambda d, o, a: d.fb.weighting_filter(a["a"], 48000))
op("matched_biquad", "fvec", lambda r, w: dict(e=r.choice(["Lowpass", "Highpass", "Peaking", "Lowshelf"])), lambda d, o, a: d.fb.matched_biquad(d.E.BiquadEqType[a["e"]], 2000.0, 3.0, 0.8, 48000))
op("frac_oct_fb", "s0", {}, lambda d, o, a: d.fb.fractional_octave_bands([250, 1000], 1, 4, o[0].sampling_rate_hz)[0].filter_signal(o[0], d.E.FilterBankMode.Parallel), "heavy")
op("recon_oct_fb", "s0", {}, lambda d, o, a: d.fb.reconstructing_fractional_octave_bands([250, 1000], n_samples=256, sampling_rate_hz=o[0].sampling_rate_hz).filter_signal(o[0], d.E.FilterBankMode.Parallel), "heavy")
op("warped_fir", "ff s0", lambda r, w: dict(k=F(r, -0.5, 0.5)), lambda d, o, a: d.fb.WarpedFIR.from_filter(o[0], a["k"]).filter_signal(o[1].get_channels(0)), "heavy")
op("lattice", "f2|fi m0", {}, lambda d, o, a: d.fb.LatticeLadderFilter.from_filter(o[0]).filter_signal(o[1]), "heavy")
op("svf", "m0", {}, lambda d, o, a: d.fb.StateVariableFilter(500.0, 1.0, o[0].sampling_rate_hz).filter_signal(o[0]), "heavy")
# ---- effects / generators / tools
op("fx_compressor", "s0|mbs", lambda r, w: dict(r=r.random() < 0.5), lambda d, o, a: d.fx.Compressor(-20, relative_to_peak_level=a["r"]).apply(o[0]), "heavy")
op("fx_tremolo", "s0|mbs", {}, lambda d, o, a: d.fx.Tremolo(0.4, d.fx.LFO(5.0)).apply(o[0]))
op("fx_chorus", "s0", {}, lambda d, o, a: d.fx.Chorus(2.0, 5.0, d.fx.LFO(3.0), 60).apply(o[0]), "heavy")
op("fx_delay", "s0|mbs", {}, lambda d, o, a: d.fx.DigitalDelay(5.0, 0.3).apply(o[0]))
op("fx_distortion", "s0|mbs", lambda r, w: dict(t=r.choice(["Arctan", "HardClip", "SoftClip", "NoDistortion"])), lambda d, o, a: d.fx.Distortion(15, 0, d.fx.DistortionType[a["t"]]).apply(o[0]))
op("fx_specsub", "s0", lambda r, w: dict(ad=r.random() < 0.5), lambda d, o, a: d.fx.SpectralSubtractor(a["ad"], -40, 0.01).apply(o[0]), "heavy")
op("gen_noise", "fvec", lambda r, w: dict(t=r.choice(["White", "Pink", "Red", "Blue", "Violet", "Grey"]), n=r.choice([1, 2])), lambda d, o, a: d.ge.noise(0.02, 8000, d.ge.NoiseType[a["t"]], number_of_channels=a["n"]), "rng")
op("gen_chirp", "fvec", lambda r, w: dict(t=r.choice(["Linear", "Logarithmic", "SyncLog"])), lambda d, o, a: d.ge.chirp(8000, d.ge.ChirpType[a["t"]], [50, 3000], 0.05))
op("gen_osc", "fvec", lambda r, w: dict(t=r.choice(["Harmonic", "Square", "Triangle", "Sawtooth"]), u=False), lambda d, o, a: d.ge.oscillator(440, 8000, 0.03, d.ge.WaveForm[a["t"]], number_of_channels=2, uncorrelated=a["u"]))
op("gen_osc_rng", "fvec", lambda r, w: dict(t=r.choice(["Harmonic", "Square", "Triangle", "Sawtooth"])), lambda d, o, a: d.ge.oscillator(440, 8000, 0.03, d.ge.WaveForm[a["t"]], number_of_channels=2, uncorrelated=True), "rng")
op("gen_dirac", "fvec", {}, lambda d, o, a: d.ge.dirac(50, 8000, 7, 2))
op("tool_smooth", "cv", lambda r, w: dict(c=r.random() < 0.5, k=r.choice([1, 3])), lambda d, o, a: d.to.fractional_octave_smoothing(o[0], None, a["k"], clip_values=a["c"]))
op("tool_db", "cv", {}, lambda d, o, a: (d.to.to_db(o[0], True, 60.0), d.to.from_db(o[0], True), d.to.wrap_phase(o[0] * 9), d.to.log_mean(o[0])))
op("tool_frames", "cv", {}, lambda d, o, a: d.to.reconstruct_from_framed_signal(d.to.framed_signal(o[0], 16, 8), 8, None, 65))
op("tool_tsmooth", "cv", {}, lambda d, o, a: d.to.time_smoothing(o[0], 1000, 0.01, 0.02))
op("tool_interp", "fvec cv", {}, lambda d, o, a: d.to.interpolate_fr(np.linspace(0, 5000, 65), o[1][:, 0], np.linspace(10, 4000, 17)))
op("tool_convert", "cv", {}, lambda d, o, a: d.to.convert_sample_representation(o[0][:, 0] - 0.5, "f64", "i16"))
op("tool_exact", "fvec cv", {}, lambda d, o, a: d.to.get_exact_value_at_frequency(np.linspace(0, 5000, 65), o[1], 1000.0))
# ---- beamforming
op("bf_map", "array8", lambda r, w: dict(b=r.choice(["DASFrequency", "CleanSC", "Orthogonal", "Functional", "MVDR"]), s=r.choice(["Classic", "Inverse", "TruePower", "TrueLocation"])), lambda d, o, a: _bf(d, o[0], a), "heavy")
op("bf_time", "array8", {}, lambda d, o, a: d.bf.BeamformerDASTime(o[0], _mics(d), _grid(d)).get_beamformer_output(), "heavy")
op("bf_mix", "m0", {}, lambda d, o, a: d.bf.mix_sources_on_array([d.bf.MonopoleSource(o[0], [0.1, 0.2, 0.9])], _mics(d)))


def _mics(d):
    x = np.linspace(-0.1, 0.1, 5)
    return d.bf.MicArray(dict(x=x, y=x[::-1] ** 2 * 5, z=np.zeros(5)))


def _grid(d):
    return d.bf.Regular2DGrid(np.linspace(-0.2, 0.2, 3), np.linspace(-0.2, 0.2, 2), ["x", "y"], 0.5)


def _bf(d, s, a):
    B = getattr(d.bf, "Beamformer" + a["b"])
    return B(s, _mics(d), _grid(d), d.bf.SteeringVector(d.bf.SteeringVectorType[a["s"]])).get_beamformer_map(1000.0)


def gen_call(r, w, exclude=()):
    while True:
        name = r.choice(_ORDER)
        o = OPS[name]
        if o.flags & set(exclude):
            continue
        if "edit" in o.flags and r.random() < 0.75:
            continue
        if "heavy" in o.flags and r.random() < 0.6:
            continue
        if "plot" in o.flags and r.random() < 0.6:
            continue
        return dict(op=name, uses=o.uses(r), a=o.gen(r, w))


from . import registry2, registry3, registry4  # noqa: E402,F401
_ORDER = sorted(OPS)
_EDITOPS = {n for n in OPS if "edit" in OPS[n].flags}


def call(d, objects, st):
    """Run one operation; returns (result, exception)."""
    o = OPS[st["op"]]
    try:
        return o.fn(d, objects, st["a"]), None
    except Exception as e:
        if not core.through_lib(e) and not st.get("mix"):   # arguments of two draws need not go together for the glue above
            raise
        return None, e
