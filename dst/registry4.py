"""Fourth part of the operation table: arguments that no run had given another value (found by recording the arguments
of every public function over all checks)."""
import numpy as np
from . import sigops as so
from .registry import op, mode, _closing
from .registry2 import win, WIN


def _stft4(r):
    return dict(so.SGRAM_DEFAULT, **dict(so.gen_sgram_params(r), padding=r.random() < 0.5, overlap_percent=r.choice([50.0, 75.0]), fft_length_samples=None, detrend=False))


def _istft4(d, s, a):
    c = s.copy()
    p = so.params(d.E, a["p"])
    c.set_spectrogram_parameters(**p)
    z = c.get_spectrogram()[2]
    return d.tr.istft(z, sampling_rate_hz=c.sampling_rate_hz, **{k: p[k] for k in ("window_length_samples", "window_type", "overlap_percent", "fft_length_samples", "padding", "scaling")})


def _drawn(fn, plt_close=True):
    """Result and drawing of a function that returns both."""
    import matplotlib.pyplot as plt
    try:
        r = fn()
        return list(r[:-2]) + so.plotted(r[-2])
    finally:
        plt.close("all")


CH = lambda r: r.choice([0, 0, -1])  # noqa
op("istft4", "s0|t0|m0", lambda r, w: dict(p=_stft4(r)), lambda d, o, a: _istft4(d, o[0], a))
op("log_mel4", "s0|t0|m0", lambda r, w: dict(c=CH(r), b=r.choice([4, 9, 16]), lo=r.choice([None, [0.02, 0.3], [0.1, 0.45]]), fs=w["fs"]),
   lambda d, o, a: d.tr.log_mel_spectrogram(o[0], a["c"], None if a["lo"] is None else [a["lo"][0] * 12000, a["lo"][1] * 8000], a["b"], False))
op("log_mel4_plot", "s0|t0", lambda r, w: dict(c=CH(r), b=r.choice([4, 9])), lambda d, o, a: _drawn(lambda: d.tr.log_mel_spectrogram(o[0], a["c"], None, a["b"], True)), "plot")
op("mfcc4_plot", "s0|t0", lambda r, w: dict(c=CH(r)), lambda d, o, a: _drawn(lambda: d.tr.mfcc(o[0], a["c"], None, True)), "plot")
op("chroma4", "s0|t0", lambda r, w: dict(t=r.choice([440, 432.5]), k=r.choice([0.5, 2.0])), lambda d, o, a: d.tr.chroma_stft(o[0], a["t"], a["k"]))
op("spectrum_fb4", "m0|s0 fvec", lambda r, w: dict(b=r.choice([100.0, 300.0]), k=r.choice([2, 4]), z=r.random() < 0.5), lambda d, o, a: d.tr.spectrum_via_filterbank(o[0], o[1][4:9], None, a["b"], a["k"], a["z"]))
op("trim_level4", "s0|ir0|cs|t0", lambda r, w: dict(t=r.choice([-40.0, -20.0, -6.0]), e=r.choice([[True, False], [False, True], [True, True]])), lambda d, o, a: d.st.trim_with_level_threshold(o[0], a["t"], *a["e"]))
op("sp.from_fb4", "fvec fb", lambda r, w: dict(m=mode(r), c=r.random() < 0.7), lambda d, o, a: d.dsp.Spectrum.from_filterbank(o[0], o[1], d.E.FilterBankMode[a["m"]], a["c"]))
op("sp.from_f4", "fvec fi|ff|f2", lambda r, w: dict(c=r.random() < 0.5), lambda d, o, a: d.dsp.Spectrum.from_filter(o[0], o[1], a["c"]))
op("sp.smooth4", "sp0|spc", lambda r, w: dict(o=r.choice([1.0, 3.0, 6.0]), w=WIN(r)), lambda d, o, a: o[0].copy().apply_octave_smoothing(a["o"], win(d.E, a["w"])))
op("csm4_plot", "s0|ir1", lambda r, w: dict(p=r.random() < 0.4, r=r.choice([None, [50.0, 3000.0]])), lambda d, o, a: _closing(lambda: o[0].plot_csm(a["r"], a["p"])), "plot")
op("sgram4_plot", "s0|t0", lambda r, w: dict(c=CH(r), l=r.random() < 0.5, db=r.choice([20, 80.0])), lambda d, o, a: _closing(lambda: o[0].plot_spectrogram(a["c"], a["l"], a["db"])), "plot")
op("waterfall4", "m0|s0", lambda r, w: dict(db=r.choice([20, 60.0])), lambda d, o, a: _closing(lambda: d.tr.plot_waterfall(o[0], 0, a["db"])), "plot")
op("svf4_plot", "fvec", lambda r, w: dict(f=r.choice([0.02, 0.1]), q=r.choice([0.7, 2.0]), n=r.choice([40, 128]), fs=w["fs"], k=r.choice(["gd", "phase"]), r=r.choice([None, [50.0, 3000.0]]), u=r.random() < 0.5),
   lambda d, o, a: _svf4(d, a), "plot")
op("tools4", "cv fvec", lambda r, w: dict(ax=r.choice([0, 1, -1]), f=r.choice([300.0, 1000.0]), e=r.choice([500, 2000.0]), r=r.choice([0.5, 2])),
   lambda d, o, a: (d.to.log_mean(o[0], a["ax"]), d.to.log_mean(o[0][:, 0]), d.to.get_exact_value_at_frequency(np.linspace(0, 5000, 65), o[0][:, 0], a["f"]), d.to.erb_frequencies([50, 3000], a["r"], a["e"])))
op("f_gd4", "fi|ff|f2 fvec", lambda r, w: dict(s=r.random() < 0.5, n=r.choice([20, 64]), z=r.random() < 0.5), lambda d, o, a: (o[0].get_group_delay(o[1], a["s"]), o[0].get_ir(a["n"], a["z"])))
op("fade4", "s0|cs", lambda r, w: dict(k=r.choice(["Linear", "Logarithmic", "Exponential"]), s=r.random() < 0.5, e=r.random() < 0.5, l=r.choice([0.004, 0.01])), lambda d, o, a: d.st.fade(o[0], d.E.FadeType[a["k"]], a["l"], a["s"], a["e"]))
op("fdelay4", "s0|ir0|t0", lambda r, w: dict(d=r.choice([0.00013, 0.001, 0.0031]), k=r.random() < 0.5, o=r.choice([10, 30, 45]), s=r.choice([40.0, 60, 90])), lambda d, o, a: d.st.fractional_delay(o[0], a["d"], None, a["k"], a["o"], a["s"]))


def _svf4(d, a):
    f = d.fb.StateVariableFilter(a["f"] * a["fs"], a["q"], a["fs"])
    return _closing(lambda: f.plot_group_delay(a["n"], a["r"]) if a["k"] == "gd" else f.plot_phase(a["n"], a["r"], a["u"]))


# ---- operands that are arrays or objects of the caller
op("mel_range4", "rngd", lambda r, w: dict(n=r.choice([4, 6]), fs=w["fs"]), lambda d, o, a: d.tr.mel_filterbank(np.linspace(0, a["fs"] / 2, 65), o[0], a["n"]))
op("log_mel_range4", "s0|m0 rngd", lambda r, w: dict(n=r.choice([4, 6])), lambda d, o, a: d.tr.log_mel_spectrogram(o[0], 0, o[1], a["n"], False))
op("cwt4", "m0|t0 wv", lambda r, w: dict(f=r.choice([[0.05, 0.2], [0.1]]), s=r.random() < 0.3), lambda d, o, a: d.tr.cwt(o[0], np.array(a["f"]) * 4000, o[1], None, a["s"]))
op("wavelet4", "wv", lambda r, w: dict(f=r.choice([200.0, 700.0]), fs=r.choice([4000, 8000])), lambda d, o, a: o[0].get_wavelet(a["f"], a["fs"]))
op("reverb_start4", "rir ist", lambda r, w: dict(m=r.choice(["T20", "EDT"]), t=r.random() < 0.5), lambda d, o, a: d.ra.reverb_time(o[0], d.ra.ReverbTime[a["m"]], o[1], a["t"]))
op("reverb_start_int4", "rir", lambda r, w: dict(i=r.choice([0, 3, 6])), lambda d, o, a: d.ra.reverb_time(o[0], d.ra.ReverbTime.T20, a["i"], False))
op("find_modes4", "irf", lambda r, w: dict(a=r.random() < 0.3), lambda d, o, a: d.ra.find_modes(o[0], [20, 1500], 50.0, antiresonances=a["a"]), "heavy")
op("irf_spectrum4", "irf", {}, lambda d, o, a: o[0].get_spectrum())
op("waterfall_st4", "m0|t0", lambda r, w: dict(p=_stft4(r)), lambda d, o, a: _closing(lambda: d.tr.plot_waterfall(o[0], 0, 40.0, so.params(d.E, a["p"]))), "plot")
