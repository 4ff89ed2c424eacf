"""More entries of the operation table: arguments varied over their whole documented range, windows with parameters, designers,
deriving by editing a copy, plots, tools."""
import numpy as np
from . import core, edits, sigops as so
from .registry import op, F, mode, _closing, _noplot, _mics, _grid, SIG

WIN = lambda r: r.choice(so.WINDOWS)  # noqa
win = so.window
ONE = "s0|s1|t0|m0|ir0|tir"
IRS = "ir0|ir1|tir"

# ---- a copy that is edited
_BY = {}
for _n, _e in sorted(edits.EDITS.items()):
    if _e.bad or _n.endswith("stream"):
        continue
    _names = "|".join(_e.on)
    op("copy+" + _n, _names, lambda r, w, e=_e: dict(e=e.gen(r), fs=w["fs"]), lambda d, o, a, e=_e: _edited(d, o[0], a, e), "edit")


def _edited(d, t, a, e):
    c = t.copy()
    e.fn(d, c, a["e"], dict(fs=a["fs"]))
    return c


def _requery(d, s, a):
    c = s.copy()
    if a["k"] == "spectrogram":
        c.set_spectrogram_parameters(**so.params(d.E, a["p"]))
    else:
        c.set_spectrum_parameters(**so.params(d.E, a["p"]))
    out = [so.get(c, a["k"])]
    if a["again"] is not None:
        c.set_spectrum_parameters(**so.params(d.E, a["again"]))
        out.append(so.get(c, a["k"]))
    return out


def _gq(r, w):
    k = r.choice(["spectrum", "spectrum", "csm", "spectrogram"])
    return dict(k=k, p=so.gen_sgram_params(r) if k == "spectrogram" else so.gen_spec_params(r), again=so.gen_spec_params(r) if k != "spectrogram" and r.random() < 0.4 else None)


op("query_params", ONE, _gq, lambda d, o, a: _requery(d, o[0], a))
op("query_params2", ONE, _gq, lambda d, o, a: _requery(d, o[0], a))
op("istft_params", "s0|t0|m0", lambda r, w: dict(p=dict(so.SGRAM_DEFAULT, **dict(so.gen_sgram_params(r), padding=True, overlap_percent=r.choice([50.0, 75.0]), fft_length_samples=None, detrend=False))), lambda d, o, a: _istft(d, o[0], a))


def _istft(d, s, a):
    c = s.copy()
    p = so.params(d.E, a["p"])
    c.set_spectrogram_parameters(**p)
    return d.tr.istft(c.get_spectrogram()[2], c), d.tr.istft(c.get_spectrogram()[2], None, p, c.sampling_rate_hz)


for _p in ("mag", "phase", "gd", "spl", "sgram", "csm", "time"):
    from .registry import _plot
    op("plot2_" + _p, "t0|tir|m0|s1", lambda r, w, p=_p: dict(_plot(r, p)), lambda d, o, a: so.plot(o[0], a, d.E), "plot")

# ---- windows
op("window_ir2", "ir0|tir|rir", lambda r, w: dict(n=r.choice([50, 64, 128, 200]), ad=r.random() < 0.5, s=r.random() < 0.5, w=[WIN(r), WIN(r)] if r.random() < 0.3 else WIN(r), c=r.choice([0.2, 0.5, 0.9]), o=r.choice([0, 3, 9]), f=r.choice([0.5, 1.0, 2.0])),
   lambda d, o, a: d.tf.window_ir(o[0], a["n"], a["ad"], a["c"], [win(d.E, x) for x in a["w"]] if len(a["w"]) == 2 and isinstance(a["w"], list) and not isinstance(a["w"][1], (int, float)) else win(d.E, a["w"]), a["s"], a["o"], a["f"]))
op("window_tukey2", "ir0|tir", lambda r, w: dict(l=r.choice([None, 0.0005, 0.001]), r=r.choice([None, 0.002, 0.004]), w=WIN(r)), lambda d, o, a: d.tf.window_ir_tukey(o[0], a["l"], a["r"], win(d.E, a["w"])))
op("window_centered2", "ir0|tir", lambda r, w: dict(n=r.choice([63, 64, 100, 151]), w=WIN(r)), lambda d, o, a: d.tf.window_centered_ir(o[0], a["n"], win(d.E, a["w"])))
op("complex_smoothing2", "ir0|tir", lambda r, w: dict(m=r.choice(["RealImaginary", "PowerPhase", "MagnitudePhase", "Power", "Magnitude", "EquivalentComplex"]), o=r.choice([1.0, 3.0, 6.0]), w=WIN(r)),
   lambda d, o, a: d.tf.complex_smoothing(o[0], a["o"], d.tf.SmoothingDomain[a["m"]], win(d.E, a["w"])))
op("tool_smooth2", "cv", lambda r, w: dict(c=r.random() < 0.3, k=r.choice([1, 2, 3, 6]), b=r.choice([None, 0.05, 0.1]), w=r.choice(["hann", "hamming", "boxcar", "blackman", ["gaussian", 3.0], ["gaussian", 7.0], ["kaiser", 5.0]])),
   lambda d, o, a: d.to.fractional_octave_smoothing(o[0], a["b"], a["k"], tuple(a["w"]) if isinstance(a["w"], list) else a["w"], clip_values=a["c"]))
op("tool_smooth_vec", "cv", lambda r, w: dict(s=r.randrange(9), n=r.choice([3, 4, 7])), lambda d, o, a: d.to.fractional_octave_smoothing(o[0], None, window_type=None, window_vec=np.random.default_rng(a["s"]).uniform(0.1, 1, a["n"])))
op("window_object", "fvec", lambda r, w: dict(w=WIN(r), n=r.choice([5, 16, 33]), s=r.random() < 0.5), lambda d, o, a: (win(d.E, a["w"])(a["n"], a["s"]), win(d.E, a["w"]).to_scipy_format()))
op("lpc2", "m0|s0|t0", lambda r, w: dict(o=r.choice([2, 4, 7]), n=r.choice([50, 64, 100]), b=r.random() < 0.5, s=r.random() < 0.3, h=r.choice([None, 20, 32]), w=WIN(r)),
   lambda d, o, a: d.tr.lpc(o[0], a["o"], a["n"], a["s"], a["b"], a["h"], win(d.E, a["w"])), "rng")
op("vqt2", "m0", lambda r, w: dict(q=r.choice([1, 0.5]), g=r.choice([0, 50]), o=r.choice([[3, 3], [3, 4]]), b=r.choice([4, 6]), t=r.choice([440, 432]), w=r.choice(["hann", "hamming", ["gaussian", 9.0], ["gaussian", 20.0]])),
   lambda d, o, a: d.tr.vqt(o[0], None, a["q"], a["g"], a["o"], a["b"], a["t"], tuple(a["w"]) if isinstance(a["w"], list) else a["w"]), "heavy")

# ---- filters designed
PT = lambda r: r.choice(["Lowpass", "Highpass", "Bandpass", "Bandstop"])  # noqa


def _giir(r, w):
    p = PT(r)
    lo, hi = round(r.uniform(0.03, 0.15) * w["fs"], 1), round(r.uniform(0.2, 0.4) * w["fs"], 1)
    return dict(o=r.choice([1, 2, 3, 4]), f=[lo, hi] if p[0] == "B" else r.choice([lo, hi]), p=p, fs=w["fs"],
                d=r.choice(["Butterworth", "Bessel", "Chebyshev1", "Chebyshev2", "Elliptic"]))


op("design_iir", "fvec", _giir, lambda d, o, a: d.dsp.Filter.iir_filter(a["o"], a["f"], d.E.FilterPassType[a["p"]], a["fs"], d.E.IirDesignMethod[a["d"]], 1.0, 40.0))
op("design_fir", "fvec", lambda r, w: dict(_giir(r, w), o=r.choice([8, 20, 33 + 1]), w=WIN(r)), lambda d, o, a: d.dsp.Filter.fir_filter(a["o"], a["f"], d.E.FilterPassType[a["p"]], a["fs"], win(d.E, a["w"])))
op("design_biquad", "fvec", lambda r, w: dict(e=r.choice(["Lowpass", "Highpass", "Peaking", "Lowshelf", "Highshelf", "BandpassSkirt", "BandpassPeak", "LowpassFirstOrder", "HighpassFirstOrder", "AllpassFirstOrder", "Allpass", "Notch", "Inverter"]),
                                              f=round(r.uniform(0.02, 0.4) * w["fs"], 1), g=r.choice([-6.0, 3.0, 9.0]), q=r.choice([0.5, 0.8, 3.0]), fs=w["fs"]),
   lambda d, o, a: d.dsp.Filter.biquad(d.E.BiquadEqType[a["e"]], a["f"], a["g"], a["q"], a["fs"]))
op("design_matched", "fvec", lambda r, w: dict(e=r.choice(["Lowpass", "Highpass", "Peaking", "Lowshelf", "Highshelf"]), f=round(r.uniform(0.02, 0.3) * w["fs"], 1), g=r.choice([-6.0, 3.0]), q=r.choice([0.5, 0.8]), fs=w["fs"]),
   lambda d, o, a: d.fb.matched_biquad(d.E.BiquadEqType[a["e"]], a["f"], a["g"], a["q"], a["fs"]))
op("design_lr", "s0|m0|t0", lambda r, w: dict(f=[[0.1], [0.05, 0.2], [0.05, 0.1, 0.3]][r.randrange(3)], o=r.choice([2, 4, 8, None]), m=r.choice(["Parallel", "Summed"])),
   lambda d, o, a: d.fb.linkwitz_riley_crossovers([x * o[0].sampling_rate_hz for x in a["f"]], a["o"] if a["o"] is not None else [2, 4, 6][:len(a["f"])], o[0].sampling_rate_hz).filter_signal(o[0], d.E.FilterBankMode[a["m"]]))
op("design_oct", "s0|t0", lambda r, w: dict(f=r.choice([[250, 1000], [500, 2000]]), n=r.choice([1, 2]), o=r.choice([2, 4])), lambda d, o, a: _oct(d, o[0], a), "heavy")
op("design_recon", "s0|t0", lambda r, w: dict(f=r.choice([[250, 1000], [500, 2000]]), n=r.choice([1, 2]), ov=r.choice([0, 0.5, 1]), sl=r.choice([0, 1, 3]), k=r.choice([256, 512])),
   lambda d, o, a: d.fb.reconstructing_fractional_octave_bands(a["f"], a["n"], a["ov"], a["sl"], a["k"], o[0].sampling_rate_hz), "heavy")
op("design_gt", "s0|m0|t0", lambda r, w: dict(f=r.choice([[0.02, 0.2], [0.05, 0.3]]), r=r.choice([1.5, 2, 3]), m=mode(r)),
   lambda d, o, a: d.fb.auditory_filters_gammatone([x * o[0].sampling_rate_hz for x in a["f"]], a["r"], o[0].sampling_rate_hz).filter_signal(o[0], d.E.FilterBankMode[a["m"]]))
op("design_fd", "fvec", lambda r, w: (lambda o: dict(x=round(o / 2 - 0.5 + r.random() * 0.9, 3), o=o, fs=w["fs"]))(r.choice([3, 8, 15])), lambda d, o, a: d.fb.fractional_delay(a["x"], a["o"], a["fs"]))
op("design_pinking", "fvec", lambda r, w: dict(f=r.choice([100.0, 1000.0]), fs=w["fs"]), lambda d, o, a: d.fb.pinking_filter(a["f"], a["fs"]))
op("design_weighting", "fvec", lambda r, w: dict(a=r.random() < 0.5, fs=w["fs"]), lambda d, o, a: d.fb.weighting_filter(a["a"], a["fs"]))
op("design_gauss", "fvec", lambda r, w: dict(l=r.choice([0.002, 0.01]), b=r.choice([0.01, 0.1]), o=r.choice([4, 12]), fs=w["fs"]), lambda d, o, a: d.fb.gaussian_kernel(a["l"], a["b"], a["o"], a["fs"]))
op("design_arma", "ir0|tir|rir", lambda r, w: dict(a=r.choice([2, 4, 6]), b=r.choice([0, 1, 3]), m=r.choice(["yule-walker", "burg"]), c=r.choice([0.0, 20.0])), lambda d, o, a: d.fb.arma(o[0].get_channels(0), a["a"], a["b"], a["m"], a["c"]))
op("warped_iir", "f2 s0|t0", lambda r, w: dict(k=F(r, -0.4, 0.4)), lambda d, o, a: d.fb.WarpedIIR.from_filter(o[0], a["k"]).filter_signal(o[1].get_channels(0)), "heavy")
op("sos_list", "fi", {}, lambda d, o, a: [_rt(f) for f in d.fb.StateSpaceFilter.from_filter_as_sos_list(o[0])])
op("svf2", "m0|t0", lambda r, w: dict(f=r.choice([0.02, 0.1]), q=r.choice([0.7, 2.0])), lambda d, o, a: d.fb.StateVariableFilter(a["f"] * o[0].sampling_rate_hz, a["q"], o[0].sampling_rate_hz).filter_signal(o[0]), "heavy")
op("kautz2", "ir0|tir", lambda r, w: dict(o=r.choice([2, 4]), n=r.choice([32, 64])), lambda d, o, a: _kautz(d, o[0], a), "heavy")
op("parallel2", "ir0|tir m0|t0", lambda r, w: dict(f=r.choice([1, 2, 4]), di=r.choice([0, 0, 2]), off=r.choice([0.0, 0.0, 1.0])), lambda d, o, a: _parallel(d, o, a), "heavy")


def _rt(f):
    f.set_n_channels(1)
    return [f.process_sample(x, 0) for x in (1.0, 0.5, 0.0, -0.25, 0.0, 0.0)]


def _oct(d, s, a):
    fb, c, e = d.fb.fractional_octave_bands(a["f"], a["n"], a["o"], s.sampling_rate_hz)
    return fb.filter_signal(s, d.E.FilterBankMode.Parallel), c, e


def _kautz(d, ir, a):
    k = d.fb.KautzFilter(np.array([0.5, 0.3 + 0.4j, 0.1 + 0.7j]), ir.sampling_rate_hz)
    k.fit_coefficients_to_ir(ir.get_channels(0))
    return k.get_ir(a["n"]), k.filter_signal(ir.get_channels(0))


def _parallel(d, o, a):
    p = d.fb.ParallelFilter(np.array([0.5 + 0.3j, 0.2 + 0.5j]), a["f"], o[0].sampling_rate_hz)
    p.set_parameters(a["di"], a["off"])
    p.fit_to_ir(o[0].get_channels(0))
    return p.get_ir(50), p.filter_signal(o[1])


def _resp(a, n):
    g = np.random.default_rng(a["s"])
    return np.abs(np.cumsum(g.normal(0, 0.05, n // 2 + 1))) + 0.4, 0.002 + 0.001 * np.abs(np.cumsum(g.normal(0, 0.1, n // 2 + 1)))


def _gdes(r, w):
    return dict(s=r.randrange(5), n=r.choice([128, 256]), fs=w["fs"], inc=r.choice([0.0, 1.0, 3.0]), add=r.choice([0, 0, 60, None]), tr=r.random() < 0.5, i=r.random() < 0.5, ir=r.random() < 0.5)


def _des(d, a, which):
    m, gd = _resp(a, a["n"])
    if which == "fir":
        x = d.fb.FirDesigner(m, gd, a["n"], a["fs"])
        x.set_parameters(a["inc"], a["add"], a["tr"], a["i"])
    elif which == "gd":
        x = d.fb.GroupDelayDesigner(gd, a["n"], a["fs"])
        x.set_parameters(a["inc"], a["add"], a["tr"], a["i"])
    else:
        x = d.fb.PhaseLinearizer(-np.cumsum(gd) * 30, a["n"], a["fs"])
        x.set_parameters(100.0 + 20 * a["inc"], a["add"], a["tr"], a["i"])
    return x.get_filter_as_ir() if a["ir"] else x.get_filter()


for _k in ("fir", "gd", "pl"):
    op("designer_" + _k, "fvec", _gdes, lambda d, o, a, k=_k: _des(d, a, k))

# ---- tools
op("tool_vectors", "fvec", lambda r, w: dict(f=r.choice([[100, 3000], [50.0, 2000.0]]), n=r.choice([1, 3, 6]), c=r.random() < 0.5, e=r.choice([0.5, 1, 2])),
   lambda d, o, a: (d.to.log_frequency_vector(a["f"], a["n"]), d.to.fractional_octave_frequencies(a["n"], tuple(a["f"]), a["c"]), d.to.erb_frequencies(a["f"], a["e"])))
op("tool_crossover", "fvec", lambda r, w: dict(f=r.choice([[100, 3000], [50.0, 2000.0]]), l=r.random() < 0.5), lambda d, o, a: d.to.frequency_crossover(a["f"], a["l"])(np.sort(o[0])))
op("tool_small", "fvec", lambda r, w: dict(t=r.choice([0.001, 0.02, 0.1]), k=r.choice([0.9, 0.95]), n=r.choice([5, 33, 100]), m=r.choice(["closest", "floor", "ceil"]), w=F(r, -0.5, 0.5)),
   lambda d, o, a: (d.to.get_smoothing_factor_ema(a["t"], 8000, a["k"]), d.to.next_power_2(a["n"], a["m"]), d.to.warp_frequency(o[0], int(2.3 * o[0][-1]), a["w"])))
op("tool_scale", "cv", lambda r, w: dict(s=r.choice(so.SCALINGS), n=128, fs=w["fs"], w=r.random() < 0.5), lambda d, o, a: d.to.scale_spectrum(o[0], d.E.SpectrumScaling[a["s"]], a["n"], a["fs"], np.hanning(a["n"]) if a["w"] else None))
op("tool_frames2", "cv", lambda r, w: dict(n=r.choice([8, 16, 20]), h=r.choice([4, 5, 8]), k=r.random() < 0.5), lambda d, o, a: d.to.framed_signal(o[0], a["n"], a["h"], a["k"]))
op("tool_db2", "cv", lambda r, w: dict(a=r.random() < 0.5, r=r.choice([None, 20.0, 80.0]), m=r.choice([None, 1e-3])), lambda d, o, a: (d.to.to_db(o[0], a["a"], a["r"], a["m"]), d.to.from_db(o[0] * -9, a["a"])))
op("tool_tsmooth2", "cv", lambda r, w: dict(a=r.choice([0.01, 0.002]), d=r.choice([None, 0.02])), lambda d, o, a: d.to.time_smoothing(o[0], 1000, a["a"], a["d"]))
op("tool_interp2", "fvec cv", lambda r, w: dict(m=r.choice([None, "db2amplitude", "amplitude2db", "power2db", "power2amplitude", "amplitude2power"]), s=r.choice(["linear", "quadratic", "cubic"])),
   lambda d, o, a: d.to.interpolate_fr(np.linspace(0, 5000, 65), o[1][:, 0], np.linspace(10, 4000, 17), a["m"], a["s"]))
op("tool_convert2", "cv", lambda r, w: dict(i=r.choice(["f64", "f32"]), o=r.choice(["i16", "i32", "f32", "u8"]), c=r.random() < 0.7, b=r.random() < 0.2), lambda d, o, a: d.to.convert_sample_representation((o[0][:, 0] - 0.5).astype(dict(f64="f8", f32="f4")[a["i"]]), a["i"], a["o"], a["c"], a["b"]))
# ---- transforms
op("from_cepstrum", "m0|s0", {}, lambda d, o, a: d.tr.from_complex_cepstrum(d.tr.cepstrum(o[0], True), o[0].sampling_rate_hz))
op("morlet", "frq", lambda r, w: dict(h=r.choice([2.0, 3.0]), st=r.choice([0.01, 0.02]), i=r.random() < 0.5, fs=w["fs"], sc=r.choice([1.0, 0.5])), lambda d, o, a: _morlet(d, o[0], a))
op("mel_fb2", "fvec", lambda r, w: dict(n=r.choice([4, 6, 9]), z=r.random() < 0.5, r=r.choice([None, [100, 3000]])), lambda d, o, a: d.tr.mel_filterbank(np.linspace(0, 4000, 65), a["r"], a["n"], a["z"]))
op("mfcc2", "s0|t0", lambda r, w: dict(n=r.choice([5, 8]), ch=r.choice([0, -1])), lambda d, o, a: d.tr.mfcc(o[0], a["ch"], d.tr.mel_filterbank(o[0].get_spectrogram()[1], None, a["n"])[0], False))
op("chroma2", "m0|t0", lambda r, w: dict(t=r.choice([440, 430]), c=r.choice([0.5, 1, 2])), lambda d, o, a: d.tr.chroma_stft(o[0], a["t"], a["c"]))
op("cwt2", "s0 frq", lambda r, w: dict(h=r.choice([2.0, 3.0]), st=r.choice([0.01, 0.02]), i=r.random() < 0.5, s=r.random() < 0.3, n=r.random() < 0.3), lambda d, o, a: d.tr.cwt(o[0], o[1], d.tr.MorletWavelet(h=a["h"], step=a["st"], interpolation=a["i"]), np.array([0]), a["s"], a["n"]))
op("dft2", "t0|ir0|tir fvec", {}, lambda d, o, a: d.tr.dft(o[0], o[1]))
op("hilbert2", "t0|tir|m0|mbm", {}, lambda d, o, a: d.tr.hilbert(o[0]))
op("warp2", "tir", lambda r, w: dict(k=r.choice(["bark", "erb", 0.3]), s=r.random() < 0.5, n=r.choice([None, 100])), lambda d, o, a: d.tr.warp(o[0], a["k"], a["s"], a["n"]), "heavy")


def _morlet(d, f, a):
    m = d.tr.MorletWavelet(h=a["h"], step=a["st"], interpolation=a["i"], scale=a["sc"])
    return m.get_base_wavelet(), m.get_center_frequency(), m.get_wavelet(float(f[0]), a["fs"]), m.get_wavelet(f, a["fs"])


# ---- standard, other operands and arguments
op("resample2", "t0|tir|s0", lambda r, w: dict(f=r.choice([8000, 16000, 11025, 12000]), r=r.random() < 0.5), lambda d, o, a: d.st.resample(o[0], a["f"], a["r"]))
op("frac_delay2", "t0|tir|m0", lambda r, w: dict(t=r.choice([0.00011, 0.00037, 0.004]), k=r.random() < 0.5, o=r.choice([8, 30]), s=r.choice([40, 60])), lambda d, o, a: d.st.fractional_delay(o[0], a["t"], None, a["k"], a["o"], a["s"]))
op("fade2", "t0|tir|m0", lambda r, w: dict(t=r.choice(["Linear", "Exponential", "Logarithmic", "NoFade"]), s=r.choice([None, 0.003]), a=r.random() < 0.5, b=r.random() < 0.5), lambda d, o, a: d.st.fade(o[0], d.E.FadeType[a["t"]], a["s"], a["a"], a["b"]))
op("envelope2", "t0|tir|mbm", lambda r, w: dict(n=r.choice([15, 31, 64])), lambda d, o, a: d.st.envelope(o[0], False, a["n"]))
op("activity2", "t0|s0", lambda r, w: dict(t=r.choice([-20, -6]), p=r.random() < 0.5, at=r.choice([1, 5]), rl=r.choice([5, 25])), lambda d, o, a: d.st.activity_detector(o[0], a["t"], 0, a["p"], None, a["at"], a["rl"]))
op("gain_vec", "s0|t0|tir", lambda r, w: dict(s=r.randrange(9)), lambda d, o, a: d.st.apply_gain(o[0], np.random.default_rng(a["s"]).uniform(-9, 9, o[0].number_of_channels)))
op("normalize2", "t0|tir|mbm", lambda r, w: dict(l=r.choice([-6.0, -20]), p=r.random() < 0.5, e=r.random() < 0.5), lambda d, o, a: d.st.normalize(o[0], a["l"], a["p"], a["e"]))
op("measures2", "t0|tir|mbm", lambda r, w: dict(b=r.random() < 0.5), lambda d, o, a: (d.st.rms(o[0], a["b"]), d.st.crest_factor(o[0], a["b"]), d.st.true_peak_level(o[0])))
op("sdiff2", "s0|t0|sp0 s1|tir|sp1", lambda r, w: dict(s=r.choice([0.0, 3.0]), e=r.random() < 0.5, r=r.choice([None, 60.0])), lambda d, o, a: d.st.spectral_difference(o[0], o[1], a["s"], a["e"], False, a["r"]))
op("sdiff_c", "spc spc", {}, lambda d, o, a: d.st.spectral_difference(o[0], o[1], 0.0, True, True))
op("append_t", "s0 t0", {}, lambda d, o, a: d.st.append_signals([o[0], o[1], o[0]], True, True) if o[0].sampling_rate_hz == o[1].sampling_rate_hz else None)
op("filter_t", "fi|ff|f2 t0|tir", lambda r, w: dict(z=r.random() < 0.3), lambda d, o, a: o[0].filter_signal(o[1], zero_phase=a["z"]))
op("trim_time2", "t0|tir|mbm", lambda r, w: dict(s=r.choice([None, 0.001]), e=r.choice([None, 0.008]), i=r.random() < 0.5), lambda d, o, a: d.st.trim_with_time_selection(o[0], a["s"], a["e"], a["i"]))
op("dither2", "s0|t0 ff", lambda r, w: dict(t=r.random() < 0.5, e=r.choice([1e-3, 1e-5]), x=r.random() < 0.5), lambda d, o, a: d.st.dither(o[0], a["t"], a["e"], d.dsp.FilterBank([o[1]]) if a["x"] else None, False), "rng")
op("calibrate", "s0|mbs s1|m0", lambda r, w: dict(l=r.choice([94, 114])), lambda d, o, a: _cal(d, o, a))


def _cal(d, o, a):
    c = d.dsp.CalibrationData(o[1], a["l"])
    return c.calibrate_signal(o[0]), c.calibrate_signal(o[0], True)


# ---- transfer functions
op("deconvolve2", lambda r: r.choice([["s0", "s1"], ["s0", "m0"], ["t0", "t0"], ["tir", "tir"], ["ir0", "s1"]]), lambda r, w: dict(g=r.choice([True, True, False]), f=r.choice([None, [0.05, 0.3]]), t=r.choice([-30.0, -50]), k=r.random() < 0.5),
   lambda d, o, a: d.tf.spectral_deconvolve(o[0], o[1], a["g"], None if a["f"] is None else [x * o[0].sampling_rate_hz for x in a["f"]], a["t"], True, a["k"]))
op("tf2", lambda r: r.choice([["s0", "s1"], ["s0", "m0"], ["t0", "t0"], ["s1", "s0"], ["s0", "t0"]]), lambda r, w: dict(m=r.choice(["H1", "H2", "H3"]), n=r.choice([32, 64, 100])), lambda d, o, a: d.tf.compute_transfer_function(o[0], o[1], a["n"], d.tf.TransferFunctionType[a["m"]]))
op("minphase2", "tir|ir0", lambda r, w: dict(r=r.random() < 0.5, p=r.choice([2, 8]), al=r.choice([1.0, 0.5])), lambda d, o, a: (d.tf.min_phase_ir(o[0], a["r"], a["p"], a["al"]), d.tf.minimum_phase(o[0], a["r"], a["p"])))
op("mgd2", "tir|ir0", lambda r, w: dict(s=r.choice([0, 3]), p=r.choice([2, 8]), l=r.random() < 0.5, an=r.random() < 0.5), lambda d, o, a: (d.tf.minimum_group_delay(o[0], a["s"], a["p"]), d.tf.excess_group_delay(o[0], a["s"], a["l"], a["an"])))
op("from_mag2", "sp0|sp1", lambda r, w: dict(n=r.choice([None, 64, 200]), g=r.choice([None, 6.0]), m=r.choice([1.0, 2.0])), lambda d, o, a: (d.tf.min_phase_from_mag(o[0], int(o[0].frequency_vector_hz[-1] * 2), a["n"]), d.tf.lin_phase_from_mag(o[0], int(o[0].frequency_vector_hz[-1] * 2), a["g"], False, a["m"])))
op("combine2", "ir0|tir", lambda r, w: dict(f=r.choice([0.05, 0.2]), l=r.random() < 0.5, o=r.choice([2, 4, 8]), n=r.choice([None, "energy", "peak", 3.0])), lambda d, o, a: d.tf.combine_ir_with_dirac(o[0], a["f"] * o[0].sampling_rate_hz, a["l"], a["o"], a["n"]))
op("fdw2", "tir", lambda r, w: dict(c=r.choice([3, 5, 9]), e=r.choice([-50.0, -20.0])), lambda d, o, a: d.tf.window_frequency_dependent(o[0], a["c"], a["e"]), "heavy")
op("trim_ir2", "tir|rir", lambda r, w: dict(c=r.choice([None, 0]), o=r.choice([0.0, 0.001, 0.02])), lambda d, o, a: d.tf.trim_ir(o[0], a["c"], a["o"]))
op("harmonics2", "rir", lambda r, w: dict(n=r.choice([2, 3]), l=r.choice([0.1, 0.2]), p=r.choice([0.01, 0.05]), f=r.choice([[20, 3000.0], [50, 2000.0]])), lambda d, o, a: d.tf.harmonics_from_chirp_ir(o[0].get_channels(0), a["f"], a["l"], a["n"], a["p"]))
op("sp.interp2", "sp0|spc fvec", lambda r, w: dict(t=r.choice(["Power", "Magnitude", "Complex", "Db"]), dm=r.choice(["Power", "Magnitude", "Complex", "MagnitudePhase"]), sc=r.choice(["Linear", "Cubic", "Pchip"]), e=r.choice(["ZeroPad", "Extend", "OnePad", "Error"])),
   lambda d, o, a: _interp(d, o, a))
op("sp.to_signal2", "sp0|spc", lambda r, w: dict(fs=r.choice([8000, 16000]), l=r.choice([0.01, 0.02])), lambda d, o, a: o[0].to_signal(a["fs"], a["l"]))
op("sp.energy2", "sp0|spc", lambda r, w: dict(a=r.choice([None, 0.1]), b=r.choice([None, 0.7])), lambda d, o, a: o[0].get_energy(*[None if x is None else x * float(o[0].frequency_vector_hz[-1]) for x in (a["a"], a["b"])]))
op("sp.plots", "sp0|spc", lambda r, w: dict(n=r.choice(["NoNormalization", "Max", "MaxFirstChannel", "Energy", "EnergyFirstChannel"]), s=r.choice([0, 3])), lambda d, o, a: _closing(lambda: o[0].plot_magnitude(normalization=d.E.MagnitudeNormalization[a["n"]], smoothing=a["s"])) if False else _spplot(d, o[0], a), "plot")
op("sp.plot_coh", "sp0", lambda r, w: dict(s=r.randrange(9)), lambda d, o, a: _cohplot(d, o[0], a), "plot")


def _interp(d, o, a):
    c = o[0].copy()
    c.set_interpolator_parameters(d.E.InterpolationDomain[a["dm"]], d.E.InterpolationScheme[a["sc"]], d.E.InterpolationEdgeHandling[a["e"]])
    return c.get_interpolated_spectrum(o[1], d.E.SpectrumType[a["t"]])


def _spplot(d, s, a):
    import inspect
    p = list(inspect.signature(s.plot_magnitude).parameters)
    kw = {k: v for k, v in (("normalize", d.E.MagnitudeNormalization[a["n"]]), ("normalization", d.E.MagnitudeNormalization[a["n"]]), ("smoothing", a["s"])) if k in p}
    return _closing(lambda: s.plot_magnitude(**kw))


def _cohplot(d, s, a):
    c = s.copy()
    c.set_coherence(np.abs(so.data(a["s"], len(c.frequency_vector_hz), c.number_of_channels)))
    return _closing(lambda: c.plot_coherence())


# ---- room acoustics
op("reverb2", "rir|mbir", lambda r, w: dict(m=r.choice(["Adaptive", "T20", "T30", "T60", "EDT"]), s=r.choice([None, 4, 6])), lambda d, o, a: d.ra.reverb_time(o[0], d.ra.ReverbTime[a["m"]], a["s"], a["s"] is None))
op("modes2", "ir0|tir|rir", lambda r, w: dict(d=r.choice([20.0, 50.0]), p=r.choice([None, 1.0]), a=r.random() < 0.3), lambda d, o, a: d.ra.find_modes(o[0], [100, 2500], a["d"], a["p"], a["a"]))
op("ir_start2", "tir|rir|ir0", lambda r, w: dict(t=r.choice([-6, -20, -30])), lambda d, o, a: d.ra.find_ir_start(o[0], a["t"]))
op("room_make", "fvec", lambda r, w: dict(d=r.choice([[4.0, 3.0, 2.6], [6.0, 5.0, 3.0]]), t=r.choice([None, 0.3, 0.5]), da=r.random() < 0.4, s=r.randrange(9)), lambda d, o, a: _room(d, o[0], a), "heavy")
op("synth2", "rx", lambda r, w: dict(m=r.choice([1, 2, 4]), l=r.choice([0.03, 0.05]), fs=r.choice([8000, 16000]), p=r.choice([[1.0, 1.2, 1.3], [2.0, 0.7, 1.1]])), lambda d, o, a: d.ra.generate_synthetic_rir(o[0], a["p"], [2.5, 1.1, 1.5], a["fs"], a["l"], max_order=a["m"]))


def _room(d, f, a):
    R = d.ra.ShoeboxRoom(a["d"], a["t"], 0.3 if a["t"] is None else None)
    if a["da"]:
        g = np.random.default_rng(a["s"])
        R.add_detailed_absorption({k: [round(float(v), 3) for v in g.uniform(0.1, 0.6, 4)] for k in ("north", "south", "east", "west", "floor", "ceiling")})
    return R.t60_s, R.absorption_coefficient, R.volume, R.modal_density(300.0), R.get_mixing_time(), R.get_room_modes(2), \
        R.get_analytical_transfer_function([1.0, 1.2, 1.3], [2.5, 1.1, 1.5], f[:4], 2, False)


# ---- effects / generators / beamforming / plots
op("fx2_compressor", "s0|t0|mbs", lambda r, w: dict(t=r.choice([-30, -15]), at=r.choice([0.5, 5]), rl=r.choice([5, 20]), r=r.choice([2, 4]), p=r.random() < 0.5, k=r.choice([0, 6]), g=r.choice([0, 3]), m=r.choice([50, 100]), u=r.random() < 0.5, dn=r.random() < 0.7), lambda d, o, a: _comp(d, o[0], a), "heavy")
op("fx2_dist", "s0|t0|mbs", lambda r, w: dict(t=[r.choice(["Arctan", "HardClip", "SoftClip"]) for _ in range(2)], l=r.choice([5, 20])), lambda d, o, a: _dist(d, o[0], a))
op("fx2_delay", "s0|t0", lambda r, w: dict(t=r.choice([2.0, 5.0]), f=r.choice([0.1, 0.5]), s=r.choice(["arctan", None])), lambda d, o, a: _delay(d, o[0], a))
op("fx2_trem", "s0|t0", lambda r, w: dict(dp=r.choice([0.2, 0.9]), f=r.choice([3.0, 40.0]), w=r.choice(["harmonic", "square", "triangle", "sawtooth"]), s=r.choice([0, 2])), lambda d, o, a: d.fx.Tremolo(a["dp"], d.fx.LFO(a["f"], a["w"], False, a["s"])).apply(o[0]))
op("fx2_chorus", "m0|t0", lambda r, w: dict(dp=r.choice([1.0, 3.0]), b=r.choice([5.0, 8.0]), f=r.choice([2.0, 9.0]), m=r.choice([50, 100])), lambda d, o, a: d.fx.Chorus(a["dp"], a["b"], d.fx.LFO(a["f"]), a["m"]).apply(o[0]), "heavy")
op("fx2_specsub", "s0|t0", lambda r, w: dict(ad=r.random() < 0.5, th=r.choice([-40, -10]), b=r.choice([0.005, 0.01]), ov=r.choice([50, 75]), w=r.choice(["Hann", "Hamming", "Blackman"]), f=r.choice([0.5, 0.9]), sf=r.choice([1, 2])), lambda d, o, a: _ssub(d, o[0], a), "heavy")
op("fx2_lfo", "fvec", lambda r, w: dict(f=r.choice([3.0, 40.0]), w=r.choice(["harmonic", "square", "triangle", "sawtooth"]), s=r.choice([0, 2]), n=r.choice([None, 300])), lambda d, o, a: d.fx.LFO(a["f"], a["w"], False, a["s"]).get_waveform(8000, a["n"]))
op("fx2_rhythm", "fvec", lambda r, w: dict(n=r.choice(["quarter", "half dotted", "eighth 3", "sixteenth"]), b=r.choice([90, 120.0])), lambda d, o, a: (d.fx.get_frequency_from_musical_rhythm(a["n"], a["b"]), d.fx.get_time_period_from_musical_rhythm(a["n"], a["b"])))
op("gen2_noise", "fvec", lambda r, w: dict(t=r.choice(["White", "Pink", "Red", "Blue", "Violet", "Grey", 0.7]), n=r.choice([1, 3]), l=r.choice([0.02, 0.03]), p=r.choice([-10, -3.0]), f=r.choice(["Linear", "NoFade", "Logarithmic"]), e=r.choice([0.0, 0.004])),
   lambda d, o, a: d.ge.noise(a["l"], 8000, a["t"] if isinstance(a["t"], float) else d.ge.NoiseType[a["t"]], a["p"], a["n"], d.E.FadeType[a["f"]], a["e"]), "rng")
op("gen2_chirp", "fvec", lambda r, w: dict(t=r.choice(["Linear", "Logarithmic", "SyncLog"]), n=r.choice([1, 2]), p=r.choice([-10, -3.0]), f=r.choice(["Linear", "NoFade"]), e=r.choice([0.0, 0.004]), r=r.choice([None, [50, 3000]]), o=r.choice([0.0, 0.5])),
   lambda d, o, a: d.ge.chirp(8000, d.ge.ChirpType[a["t"]], a["r"], 0.05, a["p"], a["n"], d.E.FadeType[a["f"]], a["o"], a["e"]))
op("gen2_osc", "fvec", lambda r, w: dict(f=r.choice([440, 1000.0]), t=r.choice(["Harmonic", "Square", "Triangle", "Sawtooth"]), h=r.choice([None, 2500.0]), n=r.choice([1, 2]), fd=r.choice(["Linear", "NoFade"]), e=r.choice([0.0, 0.004])),
   lambda d, o, a: d.ge.oscillator(a["f"], 8000, 0.03, d.ge.WaveForm[a["t"]], a["h"], -10.0, a["n"], False, d.E.FadeType[a["fd"]], a["e"]))
op("bf2_map", "array8", lambda r, w: dict(b=r.choice(["DASFrequency", "CleanSC", "Orthogonal", "Functional", "MVDR"]), s=r.choice(["Classic", "Inverse", "TruePower", "TrueLocation"]), f=r.choice([600.0, 1000.0, 2000.0]), o=r.choice([1, 3]), g=r.choice(["line", "3d", "2d"]), c=r.choice([343, 340])), lambda d, o, a: _bf2(d, o[0], a), "heavy")
op("bf2_geom", "fvec", lambda r, w: dict(g=r.choice(["line", "3d", "2d"]), s=r.choice(["Classic", "Inverse", "TruePower", "TrueLocation"])), lambda d, o, a: _geom(d, a))
op("bf2_mono", "m0|t0", lambda r, w: dict(p=r.choice([[0.1, 0.2, 0.9], [0.0, 0.0, 1.5]]), c=r.choice([343, 330])), lambda d, o, a: d.bf.MonopoleSource(o[0].get_channels(0), a["p"]).get_signals_on_array(_mics(d), a["c"]))
op("plots_general", "fvec cv", lambda r, w: dict(k=r.choice(["plot", "matrix", "sub", "two"]), l=r.random() < 0.5), lambda d, o, a: _plots(d, o, a), "plot")


def _comp(d, s, a):
    c = d.fx.Compressor(a["t"], a["at"], a["rl"], a["r"], a["p"])
    c.set_advanced_parameters(a["k"], a["g"], 0, a["m"], a["u"], a["dn"])
    return c.apply(s)


def _dist(d, s, a):
    c = d.fx.Distortion(a["l"])
    T = [d.fx.DistortionType[x] for x in a["t"]]
    c.set_advanced_parameters(T, np.array([a["l"], a["l"] / 2.0]), np.array([60.0, 40.0]), np.array([-np.inf, -40.0]), 0)
    return c.apply(s)


def _delay(d, s, a):
    c = d.fx.DigitalDelay(a["t"], a["f"])
    c.set_advanced_parameters(saturation=a["s"])
    return c.apply(s)


def _ssub(d, s, a):
    c = d.fx.SpectralSubtractor(a["ad"], a["th"], a["b"])
    c.set_advanced_parameters(a["ov"], d.E.Window[a["w"]], a["f"], a["sf"])
    return c.apply(s)


def _g2(d, k):
    x = np.linspace(-0.2, 0.2, 3)
    return {"line": lambda: d.bf.LineGrid(x, "x", 0.1, 0.6), "2d": lambda: _grid(d), "3d": lambda: d.bf.Regular3DGrid(x[:2], x[:2], np.array([0.4, 0.5]))}[k]()


def _bf2(d, s, a):
    m, g = _mics(d), _g2(d, a["g"])
    out = getattr(d.bf, "Beamformer" + a["b"])(s, m, g, d.bf.SteeringVector(d.bf.SteeringVectorType[a["s"]]), a["c"]).get_beamformer_map(a["f"], a["o"])
    return out, m, g


def _geom(d, a):
    m, g = _mics(d), _g2(d, a["g"])
    v = d.bf.SteeringVector(d.bf.SteeringVectorType[a["s"]])
    return (m.aperture, m.min_distance, m.array_center_coordinates, m.array_center_channel_number, m.he_to_hz(3.0), m.hz_to_he(900.0), m.get_maximum_frequency_range(),
            g.coordinates, g.extent if hasattr(g, "extent") else None, v.get_vector(np.array([10.0, 20.0]), g, m))


def _plots(d, o, a):
    import dsptoolbox.plots as P
    f, m = np.linspace(20, 4000, 65), o[1]
    if a["k"] == "plot":
        return _closing(lambda: P.general_plot(f, m, log_x=a["l"]))
    if a["k"] == "matrix":
        return _closing(lambda: P.general_matrix_plot(m, range_x=(1, 5), range_y=(1, 9), xlog=False, ylog=False))
    if a["k"] == "sub":
        return _closing(lambda: P.general_subplots_line(f, m, log_x=a["l"]))
    return _closing(lambda: P.general_plot_two_axes(f, m, f, m * 2, log_x=a["l"]))
